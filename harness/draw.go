package main

// The primitive draws, of which all generators are made. In the random mode
// they come from rapid, in the guided mode (guide.go) from the input which
// the search is trying.

import (
	"math"

	"pgregory.net/rapid"
)

func drawInt(t *rapid.T, lo, hi int, name string) int {
	if guide != nil {
		return int(int64(guide.draw(name, 'i', uint64(int64(lo)), uint64(int64(hi)))))
	}
	return rapid.IntRange(lo, hi).Draw(t, name)
}

func drawBool(t *rapid.T, name string) bool {
	if guide != nil {
		return guide.draw(name, 'u', 0, 1) == 1
	}
	return rapid.Bool().Draw(t, name)
}

func drawI64(t *rapid.T, lo, hi int64, name string) int64 {
	if guide != nil {
		return int64(guide.draw(name, 'i', uint64(lo), uint64(hi)))
	}
	return rapid.Int64Range(lo, hi).Draw(t, name)
}

func drawUint(t *rapid.T, lo, hi uint64, name string) uint64 {
	if guide != nil {
		return guide.draw(name, 'u', lo, hi)
	}
	return rapid.Uint64Range(lo, hi).Draw(t, name)
}

// drawFloat draws a number between lo and hi, never NaN.
func drawFloat(t *rapid.T, lo, hi float64, name string) float64 {
	if guide != nil {
		return math.Float64frombits(guide.draw(name, 'f', math.Float64bits(lo), math.Float64bits(hi)))
	}
	if math.IsInf(lo, 0) {
		return rapid.Float64().Draw(t, name)
	}
	return rapid.Float64Range(lo, hi).Draw(t, name)
}

func drawByteSlice(t *rapid.T, maxLen int, name string) []byte {
	if guide != nil {
		b := make([]byte, drawInt(t, 0, maxLen, name))
		for i := range b {
			b[i] = byte(guide.draw("byte", 'u', 0, 255))
		}
		return b
	}
	return rapid.SliceOfN(rapid.Byte(), 0, maxLen).Draw(t, name)
}

const wordChars = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func drawWord(t *rapid.T) []byte {
	if guide != nil {
		b := make([]byte, drawInt(t, 1, 8, "wordlen"))
		for i := range b {
			b[i] = wordChars[guide.draw("char", 'u', 0, uint64(len(wordChars)-1))]
		}
		return b
	}
	return []byte(rapid.StringMatching(`[a-z_A-Z0-9]{1,8}`).Draw(t, "tx"))
}

func drawRunes(t *rapid.T) []byte {
	if guide != nil {
		var s string
		for n := drawInt(t, 1, 12, "runes"); n > 0; n-- {
			var r rune
			if drawInt(t, 0, 2, "runek") < 2 {
				r = rune(drawInt(t, 32, 126, "ascii"))
			} else {
				r = rune(drawInt(t, 0, 0x10ffff, "rune"))
			}
			if c := string(r); len(s)+len(c) <= 40 {
				s += c
			}
		}
		return []byte(s)
	}
	return []byte(rapid.StringN(1, 12, 40).Draw(t, "tx"))
}

func drawPerm(t *rapid.T, idx []int, name string) []int {
	if guide != nil {
		idx = append([]int{}, idx...)
		for i := range idx {
			j := drawInt(t, i, len(idx)-1, name)
			idx[i], idx[j] = idx[j], idx[i]
		}
		return idx
	}
	return rapid.Permutation(idx).Draw(t, name)
}
