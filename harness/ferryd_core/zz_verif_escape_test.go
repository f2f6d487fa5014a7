package core

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

type vsink struct {
	b    []byte
	left int // bytes taken before failing, -1: never fails
}

func (s *vsink) Write(b []byte) (int, error) {
	if s.left >= 0 && len(b) > s.left {
		n := s.left
		s.b = append(s.b, b[:n]...)
		s.left = 0
		return n, errors.New("the sink is full")
	}
	if s.left >= 0 {
		s.left -= len(b)
	}
	s.b = append(s.b, b...)
	return len(b), nil
}

// vescape is what the statement asks for, character by character; the tail is an unfinished character.
func vescape(s []byte) (out string, tail []byte) {
	var sb strings.Builder
	for len(s) > 0 {
		if !utf8.FullRune(s) {
			return sb.String(), s
		}
		r, n := utf8.DecodeRune(s)
		switch {
		case r == utf8.RuneError:
			sb.WriteString("\uFFFD")
		case r > 127 && (unicode.IsSymbol(r) || unicode.Is(unicode.C, r) || unicode.Is(unicode.Z, r)):
			sb.WriteString("&#x" + strings.ToUpper(strconv.FormatInt(int64(r), 16)) + ";")
		default:
			sb.Write(s[:n])
		}
		s = s[n:]
	}
	return sb.String(), nil
}

func TestVerifC18(t *testing.T) {
	n := 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 1000000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	bad := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL property C18: %s\n", fmt.Sprintf(f, a...))
		t.FailNow()
	}
	runes := []rune{'a', 'Z', '<', '&', '"', '\n', 0, 127, 128, 0xA0, 0xAD, 0xE9, 0x7FF, 0x800, 0x200B, 0x2028, 0x20AC, 0x3000, 0xD7FF, 0xE000, 0xE0B0, 0xFFFD, 0xFEFF, 0xFFFF, 0x10000, 0x1F642, 0x10FFFF, 'ü', '漢', '“', '+', '$', '^'}
	raws := []string{"\xff", "\xc0\x80", "\xe2\x82", "\xf0\x9f\x99", "\xed\xa0\x80", "\x80", "\xc3", "\xf8", "\xf4\x90\x80\x80", "\xe2", "\xf0"}
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		var in []byte
		for k := rnd.Intn(14); k >= 0; k-- {
			switch x := rnd.Intn(10); {
			case x < 6:
				in = append(in, string(runes[rnd.Intn(len(runes))])...)
			case x < 8:
				r := rune(rnd.Intn(0x110000))
				if r >= 0xD800 && r < 0xE000 {
					r = 'x'
				}
				in = append(in, string(r)...)
			default:
				in = append(in, raws[rnd.Intn(len(raws))]...)
			}
		}
		if i < len(raws) {
			in = []byte(raws[i])
		}
		if i == 25 { // long
			in = []byte(strings.Repeat("漢\u00a0x🙂", 3000))
		}
		kinds[string(in)] = true
		want, tail := vescape(in)
		var pieces []int
		sink := &vsink{left: -1}
		w := NewEscapedWriter(sink)
		lim := 1 + rnd.Intn(5)
		for at := 0; at < len(in) || (at == 0 && len(in) == 0); {
			k := rnd.Intn(lim + 1)
			if rnd.Intn(6) == 0 {
				k = len(in)
			}
			if k > len(in)-at {
				k = len(in) - at
			}
			buf := make([]byte, k, k+rnd.Intn(8))
			copy(buf, in[at:at+k])
			m, err := w.Write(buf)
			if err != nil || m != k {
				bad("text %q in pieces %v: writing %d bytes gives %d, %v", in, append(pieces, k), k, m, err)
			}
			if string(buf) != string(in[at:at+k]) {
				bad("text %q: the caller's buffer was changed to %q", in, buf)
			}
			for j := range buf[:cap(buf)] { // the caller reuses its buffer
				buf[:cap(buf)][j] = 'X'
			}
			pieces = append(pieces, k)
			at += k
			if len(in) == 0 {
				break
			}
		}
		if string(sink.b) != want {
			one := &vsink{left: -1}
			NewEscapedWriter(one).Write(in)
			if len(tail) == 0 || string(one.b) != string(sink.b) || !strings.HasPrefix(string(sink.b), want) {
				bad("text %q written in pieces of %v bytes is escaped to %q, written at once to %q; expected %q", in, pieces, sink.b, one.b, want)
			}
		}
		// an error below is reported
		if len(want) > 0 {
			room := rnd.Intn(len(want))
			full := &vsink{left: room}
			w := NewEscapedWriter(full)
			failed := false
			for at := 0; at < len(in) && !failed; {
				k := 1 + rnd.Intn(4)
				if k > len(in)-at {
					k = len(in) - at
				}
				m, err := w.Write(in[at : at+k])
				failed = err != nil
				if m > k || m < 0 {
					bad("text %q: writing %d bytes gives %d", in, k, m)
				}
				at += k
			}
			if !failed {
				bad("text %q: the underlying writer failed after %d of %d bytes and no error was reported", in, room, len(want))
			}
		}
		if i < 3 {
			fmt.Printf("VERIF-SAMPLE text %q in pieces %v\n", in, pieces)
		}
	}
	fmt.Printf("VERIF-EVALS %d %d random texts (all kinds of characters, invalid and unfinished bytes) written in random pieces, compared with a character by character reference\n", n, len(kinds))
}
