package kit

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

var (
	capturing bool
	captured  func(c *C)
	fuzzing   bool
	raw, made []byte
)

// Given is the text which make makes, or what the fuzzer puts in its place.
func Given(make func() []byte) []byte {
	if raw != nil {
		return append([]byte{}, raw...)
	}
	text := make()
	if fuzzing {
		made = append([]byte{}, text...)
	}
	return text
}

// Fuzz drives the property of one test (named by VERIF_FUZZ) with Go's
// coverage-guided fuzzer: the fuzzed bytes are the random choices the
// generators of the property draw from or, with VERIF_FUZZRAW, the text
// which the property is about.
func Fuzz(f *testing.F, tests map[string]func(*testing.T)) {
	test := tests[os.Getenv("VERIF_FUZZ")]
	if test == nil {
		f.Skip("no test named by VERIF_FUZZ")
	}
	onText := os.Getenv("VERIF_FUZZRAW") != ""
	fuzzing, capturing = true, true
	test(new(testing.T)) // Gets no further than Check.
	capturing = false
	if captured == nil {
		panic("VERIF-HARNESS-ERROR: the test does not call Check")
	}
	for i := 0; i < 24; i++ {
		if onText {
			f.Add(rapid.Custom(func(rt *rapid.T) []byte {
				captured(&C{T: rt})
				return made
			}).Example(i))
		} else {
			f.Add(words(Seed()+uint64(i)<<32, 128<<(i%6), i))
		}
	}
	tail := words(Seed(), 1<<17, 0)
	var once sync.Once
	var seen *os.File
	f.Fuzz(func(t *testing.T, data []byte) {
		once.Do(func() {
			if dir := os.Getenv("VERIF_OUT"); dir != "" {
				seen, _ = os.Create(filepath.Join(dir, fmt.Sprintf("fuzz.%d.seen", os.Getpid())))
			}
			startWatchdog()
		})
		progress.Add(1)
		if onText {
			raw, data = append([]byte{}, data...), nil
		}
		rapid.MakeFuzz(func(rt *rapid.T) {
			c := &C{T: rt}
			captured(c)
			if seen != nil {
				h := fnv.New64a()
				_, _ = h.Write([]byte(c.desc))
				k := h.Sum64() &^ 1
				if c.nonTrivial {
					k |= 1
				}
				_, _ = seen.Write(binary.LittleEndian.AppendUint64(nil, k))
			}
		})(t, append(data[:len(data):len(data)], tail...))
	})
}

// words are n random bytes; every third seed has small words, for which rapid picks small values.
func words(state uint64, n, i int) []byte {
	seed := make([]byte, 0, n)
	for len(seed) < n {
		state += 0x9e3779b97f4a7c15
		z := state
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		if i%3 == 1 {
			z >>= 8 * (z % 8)
		}
		seed = binary.LittleEndian.AppendUint64(seed, z)
	}
	return seed
}
