package main

// family classifies an entry by its package.
func family(e entry) string {
	switch e.pkg {
	case "ethash", "kawpow", "firopow", "octopus":
		return "dag"
	}
	return e.pkg
}

func isDag(e entry) bool { return family(e) == "dag" }

// clientCfg adds the contracts and limits used for a client.
func clientCfg(e entry, cfg RunCfg) RunCfg {
	if isDag(e) {
		old := cfg.setup
		cfg.setup = func(in *Interp) {
			in.dagHooks()
			if old != nil {
				old(in)
			}
		}
		prep := cfg.prep
		cfg.prep = func(r *Run) {
			// heights of the first 50,000 epochs
			in := r.in
			dag := in.dagOf(r.st0, r.client, r)
			if dag != nil {
				if el, ok := in.cfgInt(r.st0, dag, "EpochLength"); ok && len(r.args) > 2 {
					if h, ok := r.args[2].(*Term); ok {
						in.T.setRef(r.st0, h, Iv{n0, el.mul(ni(maxEpochs)).sub(n1)})
					}
				}
			}
			if prep != nil {
				prep(r)
			}
		}
	}
	return cfg
}
