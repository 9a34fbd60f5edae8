package main

import (
	_ "embed"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

//go:embed ref/ref.go.txt
var refSource []byte

const refPkg = "internal/zzref"

// refProps are the properties decided against the reference package.
var refProps = map[string]bool{"C24": true, "C09": true, "C11": true, "C03": true, "C04": true, "C05": true, "ref": true}

// overlays adds the reference package to the module under analysis.
func overlays(repo, prop string) map[string][]byte {
	if !refProps[prop] {
		return nil
	}
	return map[string][]byte{filepath.Join(repo, refPkg, "ref.go"): refSource}
}

func (p *Program) refFn(name string) *ssa.Function {
	if pk := p.pkg(refPkg); pk != nil {
		return pk.Func(name)
	}
	return nil
}
