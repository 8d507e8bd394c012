//go:build guided

package main

// Coverage counters and comparison hooks of the code under test, which is
// built with -gcflags=-d=libfuzzer in this variant. The symbols are those
// that the standard library's internal/fuzz uses.

import (
	"math/bits"
	"unsafe"
)

//go:linkname covBegin internal/fuzz._counters
//go:linkname covEnd internal/fuzz._ecounters
var covBegin, covEnd [0]byte

// coverCounters returns the counters of the instrumented packages.
func coverCounters() []byte {
	p, e := unsafe.Pointer(&covBegin), unsafe.Pointer(&covEnd)
	n := uintptr(e) - uintptr(p)
	if n > 1<<24 {
		return nil
	}
	return unsafe.Slice((*byte)(p), int(n))
}

//go:linkname hookCmp1 runtime.libfuzzerTraceCmp1
//go:linkname hookCmp2 runtime.libfuzzerTraceCmp2
//go:linkname hookCmp4 runtime.libfuzzerTraceCmp4
//go:linkname hookCmp8 runtime.libfuzzerTraceCmp8
//go:linkname hookConst1 runtime.libfuzzerTraceConstCmp1
//go:linkname hookConst2 runtime.libfuzzerTraceConstCmp2
//go:linkname hookConst4 runtime.libfuzzerTraceConstCmp4
//go:linkname hookConst8 runtime.libfuzzerTraceConstCmp8
//go:linkname hookStr runtime.libfuzzerHookStrCmp
//go:linkname hookFold runtime.libfuzzerHookEqualFold

func hookCmp1(a, b uint8, pc uint)    { recordCmp(uint64(a), uint64(b), pc, 0xff) }
func hookCmp2(a, b uint16, pc uint)   { recordCmp(uint64(a), uint64(b), pc, 0xffff) }
func hookCmp4(a, b uint32, pc uint)   { recordCmp(uint64(a), uint64(b), pc, 0xffffffff) }
func hookCmp8(a, b uint64, pc uint)   { recordCmp(a, b, pc, 1<<64-1) }
func hookConst1(a, b uint8, pc uint)  { recordCmp(uint64(a), uint64(b), pc, 0xff) }
func hookConst2(a, b uint16, pc uint) { recordCmp(uint64(a), uint64(b), pc, 0xffff) }
func hookConst4(a, b uint32, pc uint) { recordCmp(uint64(a), uint64(b), pc, 0xffffffff) }
func hookConst8(a, b uint64, pc uint) { recordCmp(a, b, pc, 1<<64-1) }
func hookStr(a, b string, pc uint)    { recordCmp(uint64(len(a)), uint64(len(b)), pc, 1<<64-1) }
func hookFold(a, b string, pc uint)   {}

func recordCmp(a, b uint64, pc uint, mask uint64) {
	if !cmpOn {
		return
	}
	h := (uint64(pc)*0x9e3779b97f4a7c15 ^ a*0xff51afd7ed558ccd ^ b*0xc4ceb9fe1a85ec53) >> 40
	cmpLog[h%uint64(len(cmpLog))] = cmpEntry{a, b, mask}
	// How near the operands are to each other is progress as well.
	d := a - b
	if a < b {
		d = b - a
	}
	f := uint32(pc)*2654435761 + uint32(bits.OnesCount64(a^b))*40503
	cmpNow[f%cmpBits>>6] |= 1 << (f & 63)
	f = uint32(pc)*2246822519 + uint32(bits.Len64(d))*30011 + 7
	cmpNow[f%cmpBits>>6] |= 1 << (f & 63)
}
