D='internal/dag/dag.go'; C='internal/dag/cache.go'; M='internal/dag/mmap.go'; G='internal/dag/generate.go'
EVICT='''			var evict *cache
			for _, cache := range dag.caches {
				if evict == nil || evict.used.After(cache.used) {
					evict = cache
				}
			}
			delete(dag.caches, evict.epoch)
'''
MUTANTS=[
('memo-ok','',[(D,'	future *cache            // Pre','	last   *cache\n	future *cache            // Pre'),(D,'	c = dag.caches[epoch]\n','	c = dag.caches[epoch]\n	if c == nil && dag.last != nil && dag.last.epoch == epoch {\n		c = dag.last\n	}\n'),(D,'	c.used = time.Now()\n','	c.used = time.Now()\n	dag.last = c\n')]),
('evict-helper','',[(D,EVICT,'			dag.evictOldest()\n'),(D,'/* lookups */\n','''// evictOldest drops the least recently used cache.
func (dag *DAG) evictOldest() {
	var oldest *cache
	for _, c := range dag.caches {
		if oldest == nil || c.used.Before(oldest.used) {
			oldest = c
		}
	}
	if oldest != nil {
		delete(dag.caches, oldest.epoch)
	}
}

/* lookups */
''')]),
('evict-key','',[(D,EVICT,'''			var evictEpoch uint64
			var evictUsed time.Time
			first := true
			for ep, cache := range dag.caches {
				if first || evictUsed.After(cache.used) {
					evictEpoch, evictUsed, first = ep, cache.used, false
				}
			}
			delete(dag.caches, evictEpoch)
''')]),
('lookup-helper','',[(D,'''	dag.mu.Lock()
	if dag.caches == nil {''','''	c = dag.acquire(epoch)
	c.generate(dag)

	return c
}

func (dag *DAG) acquire(epoch uint64) *cache {
	var c *cache

	dag.mu.Lock()
	defer dag.mu.Unlock()
	if dag.caches == nil {'''),(D,'''	c.used = time.Now()
	dag.mu.Unlock()

	c.generate(dag)

	return c''','''	c.used = time.Now()

	return c''')]),
('future-helper','',[(D,'''		nextEpoch := epoch + 1
		if dag.future == nil || dag.future.epoch <= epoch {
			dag.future = &cache{epoch: nextEpoch}
			go dag.future.generate(dag)
		}
''','''		if next := dag.future; next == nil || next.epoch < epoch+1 {
			next = &cache{epoch: epoch + 1}
			dag.future = next
			go func() { next.generate(dag) }()
		}
''')]),
('generate-split','',[(C,'''		// Iterate over all previous instances and delete old ones
		for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {
			seed := cfg.SeedHash(uint64(ep)*cfg.EpochLength + 1)

			cachePath := cfg.cacheStorageLocation(seed[:8])
			os.Remove(cachePath)

			l1Path := cfg.l1StorageLocation(seed[:8])
			os.Remove(l1Path)
		}
	})
}
''','''		c.prune(cfg)
	})
}

// prune removes the files of old epochs.
func (c *cache) prune(cfg *DAG) {
	if c.epoch < uint64(cfg.CachesCount) {
		return
	}
	for ep := int64(c.epoch - uint64(cfg.CachesCount)); ep >= 0; ep-- {
		seed := cfg.SeedHash(uint64(ep)*cfg.EpochLength + 1)[:8]
		for _, p := range []string{cfg.cacheStorageLocation(seed), cfg.l1StorageLocation(seed)} {
			_ = os.Remove(p)
		}
	}
}
''')]),
('mem-helper','',[(C,'''			c.cache.data = make([]uint32, size/4)
			cfg.generateCache(c.cache.data, c.epoch, seed)

			if cfg.L1Enabled {
				c.l1.data = make([]uint32, cfg.L1CacheNumItems)
				cfg.generateL1Cache(c.l1.data, c.cache.data)
			}

			return
''','''			c.generateInMemory(cfg, size, seed)
			return
'''),(C,'// finalizer unmaps','''func (c *cache) generateInMemory(cfg *DAG, size uint64, seed []byte) {
	data := make([]uint32, size/4)
	cfg.generateCache(data, c.epoch, seed)
	c.cache.data = data
	if !cfg.L1Enabled {
		return
	}
	l1 := make([]uint32, cfg.L1CacheSize/4)
	cfg.generateL1Cache(l1, c.cache.data)
	c.l1.data = l1
}

// finalizer unmaps''')]),
('finalizer-helper','',[(C,'''	if c.cache.mmap != nil {
		c.cache.mmap.Unmap()
		c.cache.dump.Close()
		c.cache.mmap, c.cache.dump = nil, nil
	}

	if c.l1.mmap != nil {
		c.l1.mmap.Unmap()
		c.l1.dump.Close()
		c.l1.mmap, c.l1.dump = nil, nil
	}
''','''	for _, f := range []*dataFile{&c.cache, &c.l1} {
		f.release()
	}
'''),(M,'// memoryMap tries to','''// release unmaps the memory and closes the file.
func (df *dataFile) release() {
	if df.mmap == nil {
		return
	}
	df.mmap.Unmap()
	df.dump.Close()
	df.mmap, df.dump = nil, nil
}

// memoryMap tries to''')]),
('magic-helper','',[(M,'''	for i, magic := range dumpMagic {
		if buffer[i] != magic {
			mem.Unmap()
			file.Close()
			return df, errors.New("invalid dump magic")
		}
	}
''','''	if !hasMagic(buffer) {
		mem.Unmap()
		file.Close()
		return df, errors.New("invalid dump magic")
	}
'''),(M,'// memoryMapFile tries','''func hasMagic(buffer []uint32) bool {
	if len(buffer) < len(dumpMagic) {
		return false
	}
	for i := len(dumpMagic) - 1; i >= 0; i-- {
		if buffer[i] != dumpMagic[i] {
			return false
		}
	}
	return true
}

// memoryMapFile tries''')]),
('magic-words','',[(M,'''	for i, magic := range dumpMagic {
		if buffer[i] != magic {
''','''	{
		if buffer[0] != dumpMagic[0] || buffer[1] != dumpMagic[1] {
'''),]),
('cleanup-defer','',[(M,'''	dump, err := os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
	if err != nil {
		return df, err
	}

	if err = ensureSize(dump, int64(len(dumpMagic))*4+int64(size)); err != nil {
		dump.Close()
		os.Remove(temp)
		return df, err
	}

	// Memory map the file for writing and fill it with the generator
	mem, buffer, err := memoryMapFile(dump, true)
	if err != nil {
		dump.Close()
		os.Remove(temp)
		return df, err
	}
''','''	dump, err := os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
	if err != nil {
		return df, err
	}
	published := false
	defer func() {
		if !published {
			os.Remove(temp)
		}
	}()

	if err = ensureSize(dump, int64(len(dumpMagic))*4+int64(size)); err != nil {
		dump.Close()
		return df, err
	}

	// Memory map the file for writing and fill it with the generator
	mem, buffer, err := memoryMapFile(dump, true)
	if err != nil {
		dump.Close()
		return df, err
	}
'''),(M,'''		mem.Unmap()
		dump.Close()
		os.Remove(temp)
		return df, err
	}

	if err := mem.Unmap(); err != nil {
		dump.Close()
		os.Remove(temp)
		return df, err
	}

	if err := dump.Close(); err != nil {
		os.Remove(temp)
		return df, err
	}

	if err := os.Rename(temp, path); err != nil {
		os.Remove(temp)
		return df, err
	}
''','''		mem.Unmap()
		dump.Close()
		return df, err
	}

	if err := mem.Unmap(); err != nil {
		dump.Close()
		return df, err
	}

	if err := dump.Close(); err != nil {
		return df, err
	}

	if err := os.Rename(temp, path); err != nil {
		return df, err
	}
	published = true
''')]),
('path-helper','',[(D,'''	name := fmt.Sprintf("cache-%s-R%d-%x", d.Name, d.Revision, seed)
	path := filepath.Join(d.StorageDir, name)

	return path
''','''	return d.storageLocation("cache", seed)
'''),(D,'''	name := fmt.Sprintf("l1-%s-R%d-%x", d.Name, d.Revision, seed)
	path := filepath.Join(d.StorageDir, name)

	return path
''','''	return d.storageLocation("l1", seed)
'''),(D,'/* calculations */','''func (d *DAG) storageLocation(kind string, seed []byte) string {
	return filepath.Join(d.StorageDir, fmt.Sprintf("%s-%s-R%d-%x", kind, d.Name, d.Revision, seed))
}

/* calculations */''')]),
('magic-store','',[(M,'	copy(buffer, dumpMagic)\n	data := buffer[len(dumpMagic):]\n','	for i := range dumpMagic {\n		buffer[i] = dumpMagic[i]\n	}\n	data := buffer[len(dumpMagic):]\n')]),
('magic-last','',[(M,'	copy(buffer, dumpMagic)\n	data := buffer[len(dumpMagic):]\n	generator(data)\n','	data := buffer[len(dumpMagic):]\n	generator(data)\n	copy(buffer[:len(dumpMagic)], dumpMagic)\n')]),
('size-reorder','',[(C,'''		size := cfg.CacheSize(c.epoch)
		seed := cfg.SeedHash(c.epoch*cfg.EpochLength + 1)
''','''		seed := cfg.SeedHash(c.epoch * cfg.EpochLength)
		size := cfg.CacheSize(c.epoch)
''')]),
('once-named','',[(C,'''	c.once.Do(func() {
		size''','''	c.once.Do(func() { c.fill(cfg) })
}

func (c *cache) fill(cfg *DAG) {
	{
		size'''),(C,'''			os.Remove(l1Path)
		}
	})
''','''			os.Remove(l1Path)
		}
	}
''')]),
('stat-size','',[(M,'''	mem, buffer, err := memoryMapFile(file, false)
	if err != nil {
		file.Close()
		return df, err
	}
''','''	info, err := file.Stat()
	if err != nil {
		file.Close()
		return df, err
	}
	if info.Size() != int64(len(dumpMagic))*4+int64(size) {
		file.Close()
		return df, errors.New("invalid dump size")
	}

	mem, buffer, err := memoryMapFile(file, false)
	if err != nil {
		file.Close()
		return df, err
	}
''')]),
('epoch-inline','',[('kawpow/client.go','''	size := c.data.DatasetSize(epoch)
	cache := c.data.GetCache(epoch)
''','''	cache := c.data.GetCache(epoch)
	defer runtime.KeepAlive(cache)
	size := c.data.DatasetSize(height / c.data.EpochLength)
'''),('kawpow/client.go','	runtime.KeepAlive(cache)\n\n	return','	return')]),
('check-helper','',[('ethash/client.go','func (c *Client) Compute(','''func (c *Client) prepare(height uint64) (uint64, dag.LookupFunc, func()) {
	epoch := c.data.CalcEpoch(height)
	cache := c.data.GetCache(epoch)
	return c.data.DatasetSize(epoch), c.data.NewLookupFunc512(cache, epoch), func() { runtime.KeepAlive(cache) }
}

func (c *Client) Compute('''),('ethash/client.go','''	epoch := c.data.CalcEpoch(height)
	size := c.data.DatasetSize(epoch)
	cache := c.data.GetCache(epoch)
	lookup := c.data.NewLookupFunc512(cache, epoch)

	mix, digest := hashimoto(hash, nonce, size, lookup)
	runtime.KeepAlive(cache)
''','''	size, lookup, release := c.prepare(height)
	mix, digest := hashimoto(hash, nonce, size, lookup)
	release()
''')]),
]
