package main

// JSON value trees, which the generators produce and the reference model works on, and their serialization into
// many equivalent texts. Nothing here is derived from Quamina's code.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Kind int

const (
	KObj Kind = iota
	KArr
	KStr
	KNum
	KTrue
	KFalse
	KNull
)

type Member struct {
	Name string
	Val  *Val
}

type Val struct {
	K   Kind
	Mem []Member
	El  []*Val
	S   string // KStr
	N   string // KNum: a JSON number
}

func vStr(s string) *Val      { return &Val{K: KStr, S: s} }
func vNum(n string) *Val      { return &Val{K: KNum, N: n} }
func vArr(el ...*Val) *Val    { return &Val{K: KArr, El: el} }
func vObj(mem ...Member) *Val { return &Val{K: KObj, Mem: mem} }

func (v *Val) isLeaf() bool { return v.K != KObj && v.K != KArr }

func (v *Val) clone() *Val {
	c := *v
	c.Mem = nil
	for _, m := range v.Mem {
		c.Mem = append(c.Mem, Member{m.Name, m.Val.clone()})
	}
	c.El = nil
	for _, e := range v.El {
		c.El = append(c.El, e.clone())
	}
	return &c
}

func (v *Val) get(name string) *Val {
	for _, m := range v.Mem {
		if m.Name == name {
			return m.Val
		}
	}
	return nil
}

// Style says how to write a value; the zero Style is compact and plain
type Style struct {
	Space   int // 0 none, 1 some, 2 lots
	Escape  int // percentage of characters written as escapes
	Shuffle bool
	Numbers bool // write numbers in other ways that mean the same float64
}

func (v *Val) String() string { return string(v.text(Style{}, nil)) }

func (v *Val) text(st Style, r *rand.Rand) []byte {
	return v.write(nil, st, r)
}

var spaces = []string{" ", "\t", "\n", "\r", "  ", "\r\n", " \t ", "\n\n    "}

func ws(b []byte, st Style, r *rand.Rand) []byte {
	if st.Space == 0 || r.IntN(3) >= st.Space {
		return b
	}
	return append(b, spaces[r.IntN(len(spaces))]...)
}

func (v *Val) write(b []byte, st Style, r *rand.Rand) []byte {
	switch v.K {
	case KObj:
		b = append(b, '{')
		b = ws(b, st, r)
		order := make([]int, len(v.Mem))
		for i := range order {
			order[i] = i
		}
		if st.Shuffle {
			r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		for n, i := range order {
			if n > 0 {
				b = append(b, ',')
				b = ws(b, st, r)
			}
			b = writeString(b, v.Mem[i].Name, st, r)
			b = ws(b, st, r)
			b = append(b, ':')
			b = ws(b, st, r)
			b = v.Mem[i].Val.write(b, st, r)
			b = ws(b, st, r)
		}
		return append(b, '}')
	case KArr:
		b = append(b, '[')
		b = ws(b, st, r)
		for i, e := range v.El {
			if i > 0 {
				b = append(b, ',')
				b = ws(b, st, r)
			}
			b = e.write(b, st, r)
			b = ws(b, st, r)
		}
		return append(b, ']')
	case KStr:
		return writeString(b, v.S, st, r)
	case KNum:
		if st.Numbers {
			return append(b, respell(v.N, r)...)
		}
		return append(b, v.N...)
	case KTrue:
		return append(b, "true"...)
	case KFalse:
		return append(b, "false"...)
	case KNull:
		return append(b, "null"...)
	}
	panic("kind")
}

func quote(s string) string { return string(writeString(nil, s, Style{}, nil)) }

func writeString(b []byte, s string, st Style, r *rand.Rand) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && w == 1 {
			b = append(b, s[i]) // deliberately invalid
			i++
			continue
		}
		i += w
		must := c < 0x20 || c == '"' || c == '\\'
		if !must && (st.Escape == 0 || r.IntN(100) >= st.Escape) {
			b = utf8.AppendRune(b, c)
			continue
		}
		short := ""
		switch c {
		case '"':
			short = `\"`
		case '\\':
			short = `\\`
		case '/':
			short = `\/`
		case '\b':
			short = `\b`
		case '\f':
			short = `\f`
		case '\n':
			short = `\n`
		case '\r':
			short = `\r`
		case '\t':
			short = `\t`
		}
		if short != "" && (st.Escape == 0 || r.IntN(2) == 0) {
			b = append(b, short...)
			continue
		}
		format := `\u%04x`
		if st.Escape > 0 {
			switch r.IntN(3) {
			case 0:
				format = `\u%04X`
			case 1:
				format = "mixed"
			}
		}
		units := []uint16{uint16(c)}
		if c > 0xffff {
			c -= 0x10000
			units = []uint16{uint16(0xd800 + (c >> 10)), uint16(0xdc00 + (c & 0x3ff))}
		}
		for _, u := range units {
			if format == "mixed" {
				b = append(b, '\\', 'u')
				for _, d := range fmt.Sprintf("%04x", u) {
					if r.IntN(2) == 0 {
						d = rune(strings.ToUpper(string(d))[0])
					}
					b = append(b, byte(d))
				}
			} else {
				b = fmt.Appendf(b, format, u)
			}
		}
	}
	return append(b, '"')
}

func numVal(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil && !math.IsInf(f, 0) && !math.IsNaN(f)
}

// respell returns another JSON number with the same float64 value
func respell(s string, r *rand.Rand) string {
	f, ok := numVal(s)
	if !ok {
		return s
	}
	for try := 0; try < 20; try++ {
		t := respellOnce(s, f, r)
		if g, ok := numVal(t); ok && g == f && len(t) < 400 && json.Valid([]byte(t)) {
			return t
		}
	}
	return s
}

func respellOnce(s string, f float64, r *rand.Rand) string {
	switch r.IntN(9) {
	case 0:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		return strings.ToUpper(strconv.FormatFloat(f, 'e', -1, 64))
	case 3: // 1e+07 => 1e7, 1e07
		t := strconv.FormatFloat(f, 'e', -1, 64)
		return strings.Replace(t, "e+0", []string{"e", "e+", "e00", "E+000"}[r.IntN(4)], 1)
	case 4: // add zeros
		t := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(t, ".") {
			t += "."
		}
		return t + strings.Repeat("0", 1+r.IntN(12))
	case 5: // shift the decimal point
		sh := r.IntN(12) - 6
		bf, ok := new(big.Rat).SetString(s)
		if !ok {
			return s
		}
		ten := new(big.Rat).SetInt64(10)
		for i := 0; i < sh; i++ {
			bf.Mul(bf, ten)
		}
		for i := 0; i < -sh; i++ {
			bf.Quo(bf, ten)
		}
		if n, exact := bf.FloatPrec(); exact && n < 300 {
			return fmt.Sprintf("%se%d", bf.FloatString(n), -sh)
		}
		return s
	case 6: // exact decimal expansion, all digits
		return new(big.Float).SetFloat64(f).Text('f', 340)
	case 7: // more digits than needed
		return strconv.FormatFloat(f, 'e', 16+r.IntN(8), 64)
	default:
		if f == 0 {
			return []string{"0", "-0", "0.0", "-0.0", "0e0", "0E+5", "-0e-7", "0.000"}[r.IntN(8)]
		}
		return s + "e0"
	}
}

// parseVal builds a tree from JSON text with the help of encoding/json
func parseVal(text []byte) (*Val, error) {
	d := json.NewDecoder(strings.NewReader(string(text)))
	d.UseNumber()
	return parseTok(d)
}

func parseTok(d *json.Decoder) (*Val, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch tt := t.(type) {
	case json.Delim:
		switch tt {
		case '{':
			v := vObj()
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				m, err := parseTok(d)
				if err != nil {
					return nil, err
				}
				v.Mem = append(v.Mem, Member{k.(string), m})
			}
			_, err = d.Token()
			return v, err
		case '[':
			v := vArr()
			for d.More() {
				m, err := parseTok(d)
				if err != nil {
					return nil, err
				}
				v.El = append(v.El, m)
			}
			_, err = d.Token()
			return v, err
		}
	case string:
		return vStr(tt), nil
	case json.Number:
		return vNum(tt.String()), nil
	case bool:
		if tt {
			return &Val{K: KTrue}, nil
		}
		return &Val{K: KFalse}, nil
	case nil:
		return &Val{K: KNull}, nil
	}
	return nil, fmt.Errorf("token %v", t)
}

// Leaf is a leaf value together with where it is
type Leaf struct {
	Path  string // names joined by \n
	V     *Val
	Trail []int // pairs: array id, position
}

func leaves(v *Val) []Leaf {
	var out []Leaf
	arrays := 0
	var walk func(v *Val, path []string, trail []int, arr int)
	walk = func(v *Val, path []string, trail []int, arr int) {
		switch v.K {
		case KObj:
			for _, m := range v.Mem {
				walk(m.Val, append(path[:len(path):len(path)], m.Name), trail, 0)
			}
		case KArr:
			arrays++
			id := arrays
			for i, e := range v.El {
				walk(e, path, append(trail[:len(trail):len(trail)], id, i), id)
			}
		default:
			out = append(out, Leaf{strings.Join(path, "\n"), v, trail})
		}
	}
	walk(v, nil, nil, 0)
	return out
}

func trailsConflict(a, b []int) bool {
	for i := 0; i < len(a); i += 2 {
		for j := 0; j < len(b); j += 2 {
			if a[i] == b[j] && a[i+1] != b[j+1] {
				return true
			}
		}
	}
	return false
}
