D='internal/dag/dag.go'; C='internal/dag/cache.go'; M='internal/dag/mmap.go'; G='internal/dag/generate.go'
MUTANTS=[
('nolock','C10',[(D,'	dag.mu.Lock()\n','')  ,(D,'	dag.mu.Unlock()\n','')]),
('used-after-unlock','C10',[(D,'	c.used = time.Now()\n	dag.mu.Unlock()\n','	dag.mu.Unlock()\n	c.used = time.Now()\n')]),
('future-unlocked','C10',[(D,'		dag.caches[epoch] = c\n		nextEpoch := epoch + 1\n		if dag.future == nil || dag.future.epoch <= epoch {\n			dag.future = &cache{epoch: nextEpoch}\n			go dag.future.generate(dag)\n		}\n	}\n\n	c.used = time.Now()\n	dag.mu.Unlock()\n',
 '		dag.caches[epoch] = c\n	}\n	c.used = time.Now()\n	dag.mu.Unlock()\n	if dag.future == nil || dag.future.epoch <= epoch {\n		dag.future = &cache{epoch: epoch + 1}\n		go dag.future.generate(dag)\n	}\n')]),
('no-once','C10',[(C,'	c.once.Do(func() {','	func() {'),(C,'			os.Remove(l1Path)\n		}\n	})','			os.Remove(l1Path)\n		}\n	}()')]),
('no-wait','C10',[(D,'	c.generate(dag)\n\n	return c','	if c.cache.data == nil {\n		c.generate(dag)\n	}\n\n	return c')]),
('shared-hasher','C10',[(D,'	mu     sync.Mutex ','	hasher crypto.Hasher\n	mu     sync.Mutex '),(D,'		caches: make(map[uint64]*cache),\n	}\n\n	return dag','		caches: make(map[uint64]*cache),\n		hasher: crypto.NewKeccak512Hasher(),\n	}\n\n	return dag'),(D,'	keccak512Hasher := crypto.NewKeccak512Hasher()\n	lookup := func(index uint32) []uint32 {\n		return dag.generateDatasetItemUint(c.Cache(), index, 1, keccak512Hasher)','	lookup := func(index uint32) []uint32 {\n		return dag.generateDatasetItemUint(c.Cache(), index, 1, dag.hasher)')]),
('lock-slow','C21',[(D,'	c.used = time.Now()\n	dag.mu.Unlock()\n\n	c.generate(dag)\n','	c.used = time.Now()\n	c.generate(dag)\n	dag.mu.Unlock()\n')]),
('early-return','C21',[(D,'	c = dag.caches[epoch]\n','	c = dag.caches[epoch]\n	if c != nil && c.epoch == 77 {\n		return c\n	}\n')]),
('seed-epoch','C11',[(C,'seed := cfg.SeedHash(c.epoch*cfg.EpochLength + 1)','seed := cfg.SeedHash(c.epoch * cfg.SeedEpochLength + 1)')]),
('future-any','C11',[(D,'dag.future != nil && dag.future.epoch == epoch','dag.future != nil && dag.future.epoch >= epoch')]),
('size-next','C11,C15',[(C,'			c.cache.data = make([]uint32, size/4)\n			cfg.generateCache(c.cache.data, c.epoch, seed)\n\n			if cfg','			c.cache.data = make([]uint32, cfg.CacheSize(c.epoch+1)/4)\n			cfg.generateCache(c.cache.data, c.epoch, seed)\n\n			if cfg')]),
('wrong-file','C11,C16',[(C,'		l1Path := cfg.l1StorageLocation(seed[:8])\n','		cachePath = cfg.cacheStorageLocation(cfg.SeedHash((c.epoch + 1) * cfg.EpochLength)[:8])\n		l1Path := cfg.l1StorageLocation(seed[:8])\n')]),
('dataset-epoch','C11',[('octopus/client.go','size := c.data.DatasetSize(epoch)','size := c.data.DatasetSize(epoch + 1)')]),
('no-keepalive','C12',[('ethash/client.go','	runtime.KeepAlive(cache)\n',''),('ethash/client.go','	"runtime"\n','')]),
('keepalive-early','C12',[('kawpow/client.go','	mix, digest := kawpow(hash, height, nonce, size, lookup, cache.L1())\n	runtime.KeepAlive(cache)\n','	l1 := cache.L1()\n	runtime.KeepAlive(cache)\n	mix, digest := kawpow(hash, height, nonce, size, lookup, l1)\n')]),
('double-unmap','C12',[(C,'		c.cache.mmap.Unmap()\n','		c.cache.mmap.Unmap()\n		c.cache.mmap.Unmap()\n')]),
('no-flush','C13',[(M,'	if err := mem.Flush(); err != nil {','	if err := error(nil); err != nil {')]),
('direct-write','C13',[(M,'	temp := path + "." + strconv.Itoa(rand.Int())\n','	temp := path\n	_ = strconv.Itoa(rand.Int())\n')]),
('rename-first','C13',[(M,'	copy(buffer, dumpMagic)\n	data := buffer[len(dumpMagic):]\n	generator(data)\n','	copy(buffer, dumpMagic)\n	data := buffer[len(dumpMagic):]\n	if err := os.Rename(temp, path); err != nil {\n		return df, err\n	}\n	generator(data)\n')]),
('ignore-flush','C13',[(M,'	if err := mem.Flush(); err != nil {\n		mem.Unmap()\n		dump.Close()\n		os.Remove(temp)\n		return df, err\n	}\n','	mem.Flush()\n')]),
('half','C13',[(M,'	generator(data)\n','	generator(data[:len(data)/2])\n')]),
('no-magic','C13',[(M,'	copy(buffer, dumpMagic)\n','	copy(buffer, dumpMagic[:1])\n')]),
('shared-temp','C13',[(M,'os.O_RDWR|os.O_CREATE|os.O_EXCL','os.O_RDWR|os.O_CREATE')]),
('size-ge','C14',[(M,'uint64(len(mem)) != uint64','uint64(len(mem)) < uint64')]),
('size-none','C14',[(M,'	if uint64(len(mem)) != uint64(len(dumpMagic))*4+size {\n		mem.Unmap()\n		file.Close()\n		return df, errors.New("invalid dump size")\n	}\n','')]),
('magic-one','C14',[(M,'	for i, magic := range dumpMagic {','	for i, magic := range dumpMagic[:1] {')]),
('magic-and','C14',[(M,'		if buffer[i] != magic {','		if buffer[i] != magic && i > 0 {')]),
('no-fallback','C15',[(C,'			if err != nil {\n				c.cache.data = make([]uint32, size/4)\n				cfg.generateCache(c.cache.data, c.epoch, seed)\n			}\n','			if err != nil {\n				c.cache.data = make([]uint32, size/4)\n			}\n')]),
('l1-fallback','C15',[(C,'			if err != nil {\n				c.l1.data = make([]uint32, cfg.L1CacheNumItems)\n				cfg.generateL1Cache(c.l1.data, c.cache.data)\n			}\n','			_ = err\n')]),
('leak-temp','C15',[(M,'	if err := os.Rename(temp, path); err != nil {\n		os.Remove(temp)\n','	if err := os.Rename(temp, path); err != nil {\n')]),
('leak-fd','C15',[(M,'		mem.Unmap()\n		file.Close()\n		return df, errors.New("invalid dump size")','		mem.Unmap()\n		return df, errors.New("invalid dump size")')]),
('leak-map','C15',[(M,'		if buffer[i] != magic {\n			mem.Unmap()\n','		if buffer[i] != magic {\n')]),
('no-final','C15',[(C,'		runtime.SetFinalizer(c, (*cache).finalizer)\n','		_ = runtime.NumCPU\n')]),
('fin-l1','C15',[(C,'		c.l1.mmap.Unmap()\n		c.l1.dump.Close()\n','		c.l1.mmap.Unmap()\n')]),
('name-rev','C16',[(D,'fmt.Sprintf("cache-%s-R%d-%x", d.Name, d.Revision, seed)','fmt.Sprintf("cache-%s-%x", d.Name, seed)')]),
('del-recent','C16',[(C,'ep := int(c.epoch) - cfg.CachesCount; ep','ep := int(c.epoch) - cfg.CachesCount + 1; ep')]),
('del-prefix','C16',[(C,'			os.Remove(cachePath)\n','			os.RemoveAll(filepath.Dir(cachePath))\n'),(C,'	"os"\n','	"os"\n	"path/filepath"\n')]),
('short-seed','C16',[(C,'		cachePath := cfg.cacheStorageLocation(seed[:8])\n		l1Path := cfg.l1StorageLocation(seed[:8])\n\n		// We','		cachePath := cfg.cacheStorageLocation(seed[:2])\n		l1Path := cfg.l1StorageLocation(seed[:8])\n\n		// We')]),
('same-kind','C16',[(D,'"l1-%s-R%d-%x"','"cache-%s-R%d-%x"')]),
('no-evict','C23',[(D,'			delete(dag.caches, evict.epoch)\n','			if evict.epoch+10 < epoch {\n				delete(dag.caches, evict.epoch)\n			}\n')]),
('evict-off','C23',[(D,'len(dag.caches) >= dag.CachesCount','len(dag.caches) > dag.CachesCount')]),
('many-go','C23',[(D,'			go dag.future.generate(dag)\n','			go dag.future.generate(dag)\n			next := &cache{epoch: nextEpoch + 1}\n			go next.generate(dag)\n')]),
('go-always','C23',[(D,'	c.used = time.Now()\n	dag.mu.Unlock()\n','	c.used = time.Now()\n	if dag.future != nil && dag.future.epoch <= epoch {\n		dag.future = &cache{epoch: epoch + 1}\n		go dag.future.generate(dag)\n	}\n	dag.mu.Unlock()\n')]),
('keep-history','C23',[(D,'	future *cache            // Pre','	old    []*cache\n	future *cache            // Pre'),(D,'			delete(dag.caches, evict.epoch)\n','			delete(dag.caches, evict.epoch)\n			dag.old = append(dag.old, evict)\n')]),
]
MUTANTS+=[
('memo-last','C11',[(D,'	future *cache            // Pre','	last   *cache\n	future *cache            // Pre'),(D,'	c = dag.caches[epoch]\n','	c = dag.caches[epoch]\n	if c == nil && dag.last != nil && dag.last.epoch/2 == epoch/2 {\n		c = dag.last\n	}\n'),(D,'	c.used = time.Now()\n','	c.used = time.Now()\n	dag.last = c\n')]),
('evict-final','C12',[(D,'			delete(dag.caches, evict.epoch)\n','			delete(dag.caches, evict.epoch)\n			evict.finalizer()\n')]),
('unmap-twice2','C12',[(C,'		c.cache.mmap.Unmap()\n','		m := c.cache.mmap\n		c.cache.mmap.Unmap()\n		m.Unmap()\n')]),
('use-after-unmap','C12',[(C,'			l1Generator := func','			c.cache.mmap.Unmap()\n			l1Generator := func')]),
]
MUTANTS=[m for m in MUTANTS if m[0]!='double-unmap']
KEEP='C10,C11,C12,C13,C14,C15,C16,C21,C23'
