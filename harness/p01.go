package main

// P01 and B01: the other checks, built for other architectures.

import (
	"bytes"
	"sort"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
)

var crossSub *Sub

// registerPorts registers P01 and B01, which consist of the sub-checks of
// the other properties. If there is no program for the other architecture,
// only the check that the code compiles for it is left of them.
func registerPorts() {
	var ids []string
	for id := range props {
		if id != "T09" && id != "I01" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	subs := func(share, least int, leaveOut func(s *Sub) bool) (r []*Sub) {
		for _, id := range ids {
			for _, s := range props[id].Subs {
				if s.Only64 || s.Name == "processes" || leaveOut(s) {
					continue
				}
				c := *s
				c.Name = id + "." + s.Name
				c.Quick = max(s.Quick/share, min(least, s.Quick/20))
				c.Thorough = max(s.Thorough/share, min(least, s.Thorough/20))
				if s.Fixed != nil {
					c.Fixed = func() (few []any) {
						all := s.Fixed()
						for i := 0; i < len(all); i += 1 + len(all)/300*share/4 {
							few = append(few, all[i])
						}
						return few
					}
				}
				r = append(r, &c)
			}
		}
		return r
	}
	compiles := func() (r []*Sub) {
		for _, s := range props["T09"].Subs {
			if s.Name == "architectures" {
				r = append(r, s)
			}
		}
		return r
	}
	// The cases of I03, compared between hosts.
	crossSub = sub("hosts", 8000, 200000, drawAgain, runHosts)
	p := &Prop{ID: "P01", Rule: "the generators and oracles of the other checks (named <property>.<sub-check>), in a program built for a 32-bit architecture (GOARCH=386), where int has 32 bits and 64-bit values need not be aligned to 8 bytes; in the sub-check hosts, what a 64-bit program observes in the same case (files written, data read, results returned) is the oracle. Non-trivial: as in these checks.",
		Assum: []string{"one little-endian 32-bit architecture can be run here (386); for the others, T09 checks that the code compiles"}}
	if strconv.IntSize == 32 {
		p.Subs = append(subs(8, 50, func(*Sub) bool { return false }), crossSub)
	} else {
		p.Subs = compiles()
	}
	b := &Prop{ID: "B01", Rule: "the generators and oracles of the other checks (named <property>.<sub-check>), in a program built for a big-endian architecture (GOARCH=mips), which an emulator executes; in the sub-check hosts, what a little-endian 64-bit program observes in the same case (files written, data read, results returned) is the oracle. Non-trivial: as in these checks.",
		Assum: []string{"one big-endian architecture can be run here (mips), by an emulator of the instruction set which is part of the check"}}
	if emulator != "" {
		b.Subs = append(subs(100, 40, func(s *Sub) bool { return s.Measure }), crossSub)
	} else {
		b.Subs = compiles()
	}
	register(p)
	register(b)
}

// runHosts records what a 64-bit little-endian host must observe as well.
// Of errors, that is only whether there is one: their texts may show sizes,
// and what is too large depends on the host.
func runHosts(k AgainCase, x *Ctx) {
	coarse := func(t trace) trace {
		failed := false
		for i := range t {
			t[i] = strings.ReplaceAll(t[i], "unexpected end", "error")
			if failed = failed || strings.Contains(t[i], ", error"); failed {
				// A length which is too large for the host may be
				// refused before anything is read.
				t[i], _, _ = strings.Cut(t[i], "; stream at")
			}
		}
		return t
	}
	switch {
	case k.Read != nil:
		b := k.Read.bytes()
		if r := flatgeobuf.NewFileReader(bytes.NewReader(b)); len(b) > 0 {
			hdr, err := r.Header()
			count := uint64(0)
			if safely(func() { count = hdr.FeaturesCount() }) && count > 1<<20 || err != nil && hdr != nil {
				return // there may be no room for the index
			}
		}
		s := newStream(b)
		x.Cross(coarse(traceRead(k.Read, s, false)))
		x.Label("reading")
	case k.Write != nil:
		x.Cross(traceWrite(k.Write, x, func(err error) string {
			if err != nil {
				return "an error"
			}
			return "no error"
		}))
		x.Label("writing")
	case k.Tree != nil:
		x.Cross(traceTree(&k, x))
		x.Label("index")
	default:
		x.Cross(traceRecord(&k, x, false))
		x.Label("properties")
	}
	x.NT()
}

func safely(f func()) (ok bool) {
	defer func() { ok = recover() == nil }()
	f()
	return
}
