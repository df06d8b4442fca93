//go:build go1.22

package main

import "github.com/alexander-yu/stream/zzverif/rt"

func checks() []*rt.Check {
	return []*rt.Check{p01(), p02(), p03(), p04(), p05(), p06(), p07(), p08(), p09(), p10(), p11(), p12(), p15seq(), p17(), p18(), p19(), p21(), p22(), p23seq(), p24()}
}
