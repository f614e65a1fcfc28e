package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
)

// ---- C25: CSV text and tables ----

var lineCol = regexp.MustCompile(`Line (\d+), Col (\d+)`)

// namesPlace: the error names a line and column that exist in the text.
func namesPlace(err error, src string) string {
	m := lineCol.FindStringSubmatch(err.Error())
	if m == nil {
		return fmt.Sprintf("the error names no line and column: %q", err)
	}
	ln, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	line, c := 1, 1
	for i := 0; ; i++ {
		if line == ln && c == col {
			return ""
		}
		if i >= len(src) {
			break
		}
		switch {
		case src[i] == '\r' && i+1 < len(src) && src[i+1] == '\n':
			if line+1 == ln && col == 1 {
				return "" // between the two
			}
			i++
			line, c = line+1, 1
		case src[i] == '\r' || src[i] == '\n':
			line, c = line+1, 1
		default:
			c++
		}
	}
	return fmt.Sprintf("the error names line %d column %d, which the text does not have: %q", ln, col, err)
}

func csvBlank(c rune) bool { return c == '\t' || c == ' ' || c == 0xa0 }
func csvBreak(c rune) bool { return c >= '\n' && c <= '\r' || c == 0x85 }

// refCsv parses as quoting, comma and line-break rules prescribe; ok is false for rejected texts.
func refCsv(src string) (rows [][]string, ok bool) {
	rs := []rune(src) // undecodable bytes read as U+FFFD
	i := 0
	at := func() rune {
		if i < len(rs) {
			return rs[i]
		}
		return -1
	}
	cell := func() (string, bool) {
		start := i
		got := false
		var sb strings.Builder
		for {
			j := i
			for csvBlank(at()) {
				i++
			}
			if at() != '"' {
				i = j
				break
			}
			got = true
			i++
			for {
				if i >= len(rs) {
					return "", false
				}
				if at() == '"' {
					if i+1 < len(rs) && rs[i+1] == '"' {
						sb.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				sb.WriteRune(at())
				i++
			}
			for csvBlank(at()) {
				i++
			}
		}
		if got {
			return sb.String(), true
		}
		i = start
		for i < len(rs) && rs[i] != ',' && !csvBreak(rs[i]) {
			sb.WriteRune(rs[i])
			i++
		}
		return strings.TrimFunc(sb.String(), func(c rune) bool { return csvBlank(c) || csvBreak(c) }), true
	}
	for {
		var row []string
		for {
			c, ok := cell()
			if !ok {
				return nil, false
			}
			row = append(row, c)
			if at() != ',' {
				break
			}
			i++
		}
		rows = append(rows, row)
		if i >= len(rs) {
			break
		}
		if !csvBreak(at()) {
			return nil, false
		}
		for csvBreak(at()) {
			i++
		}
	}
	for len(rows) > 0 && len(rows[len(rows)-1]) == 1 && rows[len(rows)-1][0] == "" {
		rows = rows[:len(rows)-1]
	}
	return rows, true
}

func sameTable(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

var csvBits = []string{"a", "b", "Z", "0", "42", ",", "\"", "\n", "\r", "\r\n", " ", "\t", "\u00a0", "\u0085", "\v", "\f", "é", "日", "😀", "'", "\"\"", "\u2028", "\x00", ";", "\\", "\ufeff", "\u3000", "-1.5", "=", "\u00ad"}

func genCell(r *Rng) string {
	n := r.W(15, 30, 25, 20, 10)
	s := ""
	for i := 0; i < n; i++ {
		s += pick(r, csvBits)
	}
	return s
}

func c25roundtrip(t *T, idx int) {
	rows := t.R(1, 5)
	var tab [][]string
	if t.P(1) {
		rows = t.R(100, 600)
	}
	cols := t.R(1, 5)
	for i := 0; i < rows; i++ {
		n := cols
		if t.P(20) {
			n = t.R(1, 6)
		}
		var row []string
		for j := 0; j < n; j++ {
			row = append(row, genCell(t.Rng))
		}
		if n == 1 && row[0] == "" {
			row[0] = pick(t.Rng, csvBits)
		}
		tab = append(tab, row)
	}
	if t.P(1) {
		tab[0][0] = strings.Repeat(genCell(t.Rng)+"\"", 2000)
	}
	keep := make([][]string, len(tab))
	for i := range tab {
		keep[i] = append([]string(nil), tab[i]...)
	}
	var text string
	desc := func() string { return fmt.Sprintf("table %.1500q written as %.1500q", keep, text) }
	t.guarded(desc, func() {
		text = csv.ToCsv(tab)
		if !sameTable(tab, keep) {
			t.Failf("ToCsv changed the table to %.1500q: %s", tab, desc())
		}
		got, err := csv.Parse(text)
		if err != nil {
			t.Failf("its own output is rejected: %v\n  %s", err, desc())
		}
		if !sameTable(got, tab) {
			t.Failf("read back as %.1500q\n  %s", got, desc())
		}
		if want, ok := refCsv(text); !ok || !sameTable(want, tab) {
			t.Failf("by the rules the output means %.1500q\n  %s", want, desc())
		}
	})
	t.Eval(1)
	t.Obs("tables", 1)
	q := false
	for _, row := range tab {
		for _, c := range row {
			t.Obs("cells", 1)
			if strings.ContainsAny(c, "\",\n\r \t") {
				q = true
			}
		}
	}
	if q {
		t.DistinctS(text)
	}
	t.Sample(func() string { return fmt.Sprintf("%q <=> %q", keep, text) })
}

func c25text(t *T, idx int) {
	for k := 0; k < 6; k++ {
		n := t.N(12)
		if t.P(1) {
			n = t.R(200, 1500)
		}
		var src string
		switch t.W(60, 20, 20) {
		case 0:
			for i := 0; i < n; i++ {
				src += pick(t.Rng, []string{",", ",", "\n", "\"", "\"", "\"\"", "a", " ", "é", pick(t.Rng, csvBits)})
			}
		case 1:
			src = hostile(t.Rng, n)
		case 2:
			src = genCsvText(t.Rng)
		}
		want, ok := refCsv(src)
		desc := func() string { return fmt.Sprintf("text %.1500q", src) }
		t.guarded(desc, func() {
			got, err := csv.Parse(src)
			t.Eval(1)
			if (err == nil) != ok {
				t.Failf("error %v, table %.1000q; by the rules accepted=%v %.1000q\n  %s", err, got, ok, want, desc())
			}
			if err != nil {
				t.Obs("rejected", 1)
				if s := namesPlace(err, src); s != "" {
					t.Failf("%s\n  %s", s, desc())
				}
				if got != nil {
					t.Failf("rows %.1000q beside an error\n  %s", got, desc())
				}
				return
			}
			t.Obs("accepted", 1)
			if !sameTable(got, want) {
				t.Failf("parsed as %.1500q, by the rules %.1500q\n  %s", got, want, desc())
			}
		})
		if len(src) > 4 {
			t.DistinctS(src)
		}
	}
}

// c25huge: cells around sizes at which something might change.
func c25huge(t *T, idx int) {
	n := []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 140000}[idx]
	for kind := 0; kind < 3; kind++ {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch {
			case kind == 1 && t.P(20):
				sb.WriteString(pick(t.Rng, []string{"\"", ",", "\n", "\r\n", " ", "日"}))
			case kind == 2 && i >= n-2 || kind == 2 && i&(i+1) == 0:
				sb.WriteString("\n")
			default:
				sb.WriteByte(byte('a' + i%26))
			}
		}
		sb.WriteString("\n\"x\" ,")
		tab := [][]string{{"a", sb.String(), "b"}, {"", "z", ""}}
		if kind == 0 { // without quotes
			tab[0][1] = strings.Repeat("q", n)
		}
		t.guarded(func() string { return fmt.Sprintf("a cell of %d characters, kind %d", n, kind) }, func() {
			got, err := csv.Parse(csv.ToCsv(tab))
			t.Eval(1)
			if err != nil || len(got) != 2 || !sameTable(got[1:], tab[1:]) || len(got[0]) != 3 || got[0][0] != "a" || got[0][2] != "b" {
				t.Failf("a table with a cell of %d characters, kind %d, comes back otherwise: %v", n, kind, err)
			}
			a, b := got[0][1], tab[0][1]
			for i := 0; i < len(a) || i < len(b); i++ {
				if i >= len(a) || i >= len(b) || a[i] != b[i] {
					t.Failf("a cell of %d characters, kind %d: %d bytes came back as %d, the first difference at %d", n, kind, len(b), len(a), i)
				}
			}
			t.Obs("huge cells", 1)
		})
	}
	// many rows, wide rows
	rows := make([][]string, n)
	wide := make([]string, n)
	for i := range rows {
		rows[i] = []string{strconv.Itoa(i), pick(t.Rng, csvBits) + "x"}
		wide[i] = strconv.Itoa(i)
	}
	for _, tab := range [][][]string{rows, {wide, {"a"}, wide}} {
		t.guarded(func() string { return fmt.Sprintf("a table of size %d", n) }, func() {
			got, err := csv.Parse(csv.ToCsv(tab))
			t.Eval(1)
			if err != nil || !sameTable(got, tab) {
				t.Failf("a table of %d rows, first row of %d cells, comes back otherwise: %v", len(tab), len(tab[0]), err)
			}
		})
	}
	t.Distinct(uint64(n))
}

// c25codepoints: every character in cells: alone, between others, and in texts as it is.
func c25codepoints(t *T, idx int) {
	var tab [][]string
	for c := rune(idx * cpChunk); c < rune((idx+1)*cpChunk) && c <= 0x10ffff; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		x := string(c)
		tab = append(tab, []string{x, pick(t.Rng, []string{"a" + x + "b", x + x, x + "a", "a" + x, " " + x, x + "\"", "," + x})})
		if c < 0x10000 || t.P(5) {
			src := pick(t.Rng, []string{x, "a" + x + "b,c", x + ",b", "a," + x, "\"" + x + "\",b", "\"a\"" + x + ",b", x + "\"a\",b", "a\n" + x + "\nb"})
			want, ok := refCsv(src)
			t.guarded(func() string { return fmt.Sprintf("text %q", src) }, func() {
				got, err := csv.Parse(src)
				if (err == nil) != ok || ok && !sameTable(got, want) {
					t.Failf("text %q: error %v, table %q; by the rules accepted=%v %q", src, err, got, ok, want)
				}
			})
			t.Eval(1)
		}
	}
	t.Eval(1)
	t.Obs("characters", len(tab))
	t.Distinct(uint64(idx))
	if len(tab) == 0 {
		return
	}
	t.guarded(func() string { return fmt.Sprintf("characters from %U", idx*cpChunk) }, func() {
		got, err := csv.Parse(csv.ToCsv(tab))
		if err != nil {
			t.Failf("a table with the characters from %U is rejected: %v", idx*cpChunk, err)
		}
		for i := range tab {
			if i >= len(got) || !sameTable(got[i:i+1], tab[i:i+1]) {
				t.Failf("row %q came back as %q", tab[i], got[min(i, len(got)):min(i+1, len(got))])
			}
		}
		if len(got) != len(tab) {
			t.Failf("%d rows came back as %d", len(tab), len(got))
		}
	})
}

// ---- C26: records ----

var fieldKinds = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(namedStr("")), reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedF(0))}

type namedStr string
type namedInt int16
type namedF float32

var otherKinds = []reflect.Type{reflect.TypeOf(false), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf((*int)(nil)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(complex64(0))}

var colNames = []string{"id", "name", "a b", "x,y", "q\"q", "日", "F0", "F1", "Price", "n1", "csv", "_", "line\nbreak", " lead"}

func isPlainKind(k reflect.Kind) bool {
	switch k {
	case reflect.String, reflect.Float32, reflect.Float64:
		return true
	}
	return k >= reflect.Int && k <= reflect.Uint64
}

// genStruct makes a struct type; cols gives each field's column name, all different.
func genStruct(r *Rng) (typ reflect.Type, cols []string) {
	used := map[string]bool{}
	var fs []reflect.StructField
	for i := r.R(1, 6); i > 0; i-- {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: pick(r, fieldKinds)}
		if r.P(6) {
			f.Type = pick(r, otherKinds)
		}
		col := f.Name
		if r.P(60) {
			c := pick(r, colNames)
			if !used[c] && !(strings.HasPrefix(c, "F") && c != f.Name) {
				col = c
				f.Tag = reflect.StructTag(fmt.Sprintf("csv:%q", c))
				if r.P(30) {
					f.Tag = reflect.StructTag(fmt.Sprintf("json:\"j%d\" csv:%q xml:\"z\"", i, c))
				}
			}
		}
		if used[col] {
			continue
		}
		used[col] = true
		fs = append(fs, f)
		cols = append(cols, col)
	}
	if len(fs) == 0 {
		fs = []reflect.StructField{{Name: "F0", Type: fieldKinds[0]}}
		cols = []string{"F0"}
	}
	return reflect.StructOf(fs), cols
}

func genField(r *Rng, v reflect.Value) {
	switch k := v.Kind(); {
	case k == reflect.String:
		v.SetString(genCell(r))
	case k >= reflect.Int && k <= reflect.Int64:
		v.SetInt(int64(r.U64()) >> uint(64-v.Type().Bits()+r.N(v.Type().Bits())))
		if r.P(20) {
			m := int64(1)<<uint(v.Type().Bits()-1) - 1
			v.SetInt(pick(r, []int64{m, -m - 1, 0, -1}))
		}
	case k >= reflect.Uint && k <= reflect.Uint64:
		v.SetUint(r.U64() >> uint(64-v.Type().Bits()+r.N(v.Type().Bits())))
		if r.P(20) {
			v.SetUint(pick(r, []uint64{0, math.MaxUint64 >> uint(64-v.Type().Bits())}))
		}
	case k == reflect.Float32:
		f := math.Float32frombits(uint32(r.U64()))
		if r.P(50) || f != f {
			f = float32(r.R(-1000, 1000)) / 10
		}
		v.SetFloat(float64(f))
	case k == reflect.Float64:
		f := math.Float64frombits(r.U64())
		if r.P(50) || f != f {
			f = float64(r.R(-100000, 100000)) / 100
		}
		v.SetFloat(f)
	case k == reflect.Bool:
		v.SetBool(true)
	}
}

func shuffle[X any](r *Rng, xs []X) []X {
	xs = append([]X(nil), xs...)
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
	return xs
}

// cellMeans: does the cell's text stand for the field's value?
func cellMeans(v reflect.Value, s string) bool {
	switch k := v.Kind(); {
	case k == reflect.String:
		return v.String() == s
	case k >= reflect.Int && k <= reflect.Int64:
		n, ok := new(big.Int).SetString(s, 10)
		return ok && n.Cmp(big.NewInt(v.Int())) == 0
	case k >= reflect.Uint && k <= reflect.Uint64:
		n, ok := new(big.Int).SetString(s, 10)
		return ok && n.Cmp(new(big.Int).SetUint64(v.Uint())) == 0
	case k == reflect.Float32, k == reflect.Float64:
		x, err := strconv.ParseFloat(s, v.Type().Bits())
		if err != nil && !math.IsInf(v.Float(), 0) {
			return false
		}
		return x == v.Float() && math.Signbit(x) == math.Signbit(v.Float())
	}
	return s == ""
}

func c26marshal(t *T, idx int) {
	typ, fcols := genStruct(t.Rng)
	n := t.N(5)
	list := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < typ.NumField(); j++ {
			genField(t.Rng, list.Index(i).Field(j))
		}
	}
	var cols []string
	for _, c := range fcols {
		if t.P(85) {
			cols = append(cols, c)
		}
	}
	for _, c := range shuffle(t.Rng, colNames)[:t.N(3)] {
		dup := false
		for _, x := range fcols {
			dup = dup || x == c
		}
		if _, other := typ.FieldByName(c); !dup && !other {
			cols = append(cols, c)
		}
	}
	cols = shuffle(t.Rng, cols)
	if len(cols) == 0 {
		return
	}
	keep := append([]string(nil), cols...)
	desc := func() string { return fmt.Sprintf("columns %q of %v %+v", keep, typ, list.Interface()) }
	t.guarded(desc, func() {
		text, err := csv.Marshal(cols, list.Interface())
		if err != nil {
			t.Failf("error %v\n  %s", err, desc())
		}
		if !reflect.DeepEqual(cols, keep) {
			t.Failf("the column list was changed to %q\n  %s", cols, desc())
		}
		t.Eval(1)
		t.Obs("records written", n)
		// the row of a single empty cell, or of blank lines, has no representation of its own
		rows, ok := refCsv(text)
		if !ok {
			t.Failf("wrote %q, which is no CSV\n  %s", text, desc())
		}
		single := len(cols) == 1
		if single {
			for i := 0; i < n; i++ {
				for j, c := range fcols {
					if c == cols[0] && list.Index(i).Field(j).Kind() == reflect.String && list.Index(i).Field(j).String() == "" || !isPlainKind(list.Index(i).Field(j).Kind()) {
						return
					}
				}
			}
			found := false
			for _, c := range fcols {
				found = found || c == cols[0]
			}
			if !found {
				return
			}
		}
		if len(rows) != n {
			t.Failf("wrote %d rows for %d records: %q\n  %s", len(rows), n, text, desc())
		}
		for i, row := range rows {
			if len(row) != len(cols) {
				t.Failf("row %d has %d cells for %d columns: %q\n  %s", i, len(row), len(cols), text, desc())
			}
			for k, c := range cols {
				j := -1
				for x := range fcols {
					if fcols[x] == c {
						j = x
					}
				}
				if j < 0 {
					if row[k] != "" {
						t.Failf("column %q, which no field has, holds %q\n  %s", c, row[k], desc())
					}
					continue
				}
				if !cellMeans(list.Index(i).Field(j), row[k]) {
					t.Failf("record %d: column %q holds %q for the value %v\n  %s", i, c, row[k], list.Index(i).Field(j), desc())
				}
				t.Obs("fields written", 1)
			}
		}
		// and back
		text2 := csv.ToCsv([][]string{cols}) + "\n" + text
		back := reflect.New(reflect.SliceOf(typ))
		if err := csv.Unmarshal(back.Interface(), text2); n > 0 && err != nil {
			for i := 0; i < n; i++ {
				for j := range fcols {
					f := list.Index(i).Field(j)
					if (f.Kind() == reflect.Float32 || f.Kind() == reflect.Float64) && math.IsInf(f.Float(), 0) {
						return
					}
				}
			}
			t.Failf("its own output is rejected: %v\n  %s", err, desc())
		} else if n > 0 {
			for i := 0; i < n; i++ {
				for j, c := range fcols {
					for _, x := range cols {
						if f := list.Index(i).Field(j); x == c && isPlainKind(f.Kind()) && back.Elem().Index(i).Field(j).Interface() != f.Interface() {
							t.Failf("record %d field %d comes back as %v\n  %s", i, j, back.Elem().Index(i).Field(j), desc())
						}
					}
				}
			}
		}
	})
	t.DistinctS(desc())
	t.Sample(desc)
}

var plainInt = regexp.MustCompile(`^-?[0-9]+$`)
var csvFloat = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// wantField: what the cell makes of the field. open: either an error or v.
func wantField(typ reflect.Type, s string) (v interface{}, fail, open bool) {
	x := reflect.New(typ).Elem()
	switch k := typ.Kind(); {
	case k == reflect.String:
		x.SetString(s)
	case k >= reflect.Int && k <= reflect.Int64:
		if !plainInt.MatchString(s) {
			z, err := strconv.ParseInt(s, 10, typ.Bits())
			if err != nil {
				return nil, true, false
			}
			x.SetInt(z)
			return x.Interface(), false, true
		}
		n, _ := new(big.Int).SetString(s, 10)
		if !n.IsInt64() || x.OverflowInt(n.Int64()) {
			return nil, true, false
		}
		x.SetInt(n.Int64())
	case k >= reflect.Uint && k <= reflect.Uint64:
		if !plainInt.MatchString(s) {
			z, err := strconv.ParseUint(strings.TrimPrefix(s, "+"), 10, typ.Bits())
			if err != nil {
				return nil, true, false
			}
			x.SetUint(z)
			return x.Interface(), false, true
		}
		n, _ := new(big.Int).SetString(s, 10)
		if !n.IsUint64() || x.OverflowUint(n.Uint64()) {
			return nil, true, false
		}
		x.SetUint(n.Uint64())
		if strings.HasPrefix(s, "-") { // minus zero
			return x.Interface(), false, true
		}
	case k == reflect.Float32, k == reflect.Float64:
		z, err := strconv.ParseFloat(s, typ.Bits())
		if err != nil {
			return nil, true, false
		}
		x.SetFloat(z)
		return x.Interface(), false, !csvFloat.MatchString(s)
	}
	return x.Interface(), false, false
}

func genNumText(r *Rng) string {
	switch r.W(30, 30, 20, 20) {
	case 0:
		return fmt.Sprint(r.R(-300, 300))
	case 1:
		lim := pick(r, []int64{127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295, math.MaxInt64, math.MinInt64, 0})
		n := big.NewInt(lim)
		if r.P(15) {
			n = new(big.Int).SetUint64(math.MaxUint64)
		}
		return n.Add(n, big.NewInt(int64(r.R(-2, 2)))).String()
	case 2:
		return pick(r, []string{"", "1.5", "-0.25", "1e3", "1e400", "-1e400", "1e39", "3.4028236e38", "0x10", "1_000", "+5", "-0", "inf", "NaN", "1e-400", ".5", "5.", "--1", "1 2", "٣", "00012", "1e", "0b1", "16777217", "9007199254740993"})
	}
	return genCell(r)
}

type fixedRec struct {
	A      int8 `csv:"id"`
	hidden string
	name   int // a column "name" must not reach it
	B      string
	C      float32 `csv:"n1"`
	D      bool    `csv:"csv"`
	_      int
}

func c26unmarshal(t *T, idx int) {
	typ, fcols := genStruct(t.Rng)
	if t.P(15) {
		typ = reflect.TypeOf(fixedRec{})
		fcols = []string{"id", "\x00", "\x00", "B", "n1", "csv", "\x00"}
	}
	var header []string
	for _, c := range fcols {
		f, _ := typ.FieldByName(c)
		_ = f
		if c == "\x00" {
			continue
		}
		header = append(header, c)
	}
	// a tagged field without its column is not judged: drop only untagged ones
	var hdr []string
	for i, c := range fcols {
		if c == "\x00" {
			continue
		}
		if typ.Field(i).Tag.Get("csv") == "" && t.P(15) {
			continue
		}
		hdr = append(hdr, c)
	}
	for _, c := range append(shuffle(t.Rng, colNames)[:t.N(3)], "hidden", "zzz") {
		dup := false
		for _, x := range hdr {
			dup = dup || x == c
		}
		for i, x := range fcols {
			dup = dup || x == c || typ.Field(i).Name == c && x != "\x00"
		}
		if !dup && t.P(60) {
			hdr = append(hdr, c)
		}
	}
	if len(hdr) == 0 {
		return
	}
	hdr = shuffle(t.Rng, hdr)
	field := map[int]int{} // column -> field
	for k, c := range hdr {
		for j, x := range fcols {
			if x == c {
				field[k] = j
			}
		}
	}
	n := t.R(1, 4)
	rows := [][]string{hdr}
	fail, open := false, false
	want := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
	var opens [][3]interface{}
	good := t.P(60)
	for i := 0; i < n; i++ {
		cells := len(hdr)
		if t.P(8) {
			cells = t.R(1, len(hdr)+2)
		}
		var row []string
		for k := 0; k < cells; k++ {
			s := genNumText(t.Rng)
			if j, ok := field[k]; ok && good {
				v := reflect.New(typ.Field(j).Type).Elem()
				genField(t.Rng, v)
				switch {
				case v.Kind() == reflect.String:
					s = v.String()
				case isPlainKind(v.Kind()):
					s = fmt.Sprint(v.Interface())
				}
			}
			row = append(row, s)
		}
		if cells == 1 && row[0] == "" {
			row[0] = "1"
		}
		rows = append(rows, row)
		for k := range hdr {
			j, ok := field[k]
			if !ok {
				continue
			}
			if k >= cells {
				fail = true
				continue
			}
			if !isPlainKind(typ.Field(j).Type.Kind()) {
				continue
			}
			v, f, o := wantField(typ.Field(j).Type, row[k])
			if f {
				fail = true
			} else if o {
				open = true
			}
			if !f {
				want.Index(i).Field(j).Set(reflect.ValueOf(v))
			}
		}
	}
	_ = opens
	text := csv.ToCsv(rows)
	if got, ok := refCsv(text); !ok || !sameTable(got, rows) {
		return // C25 judges that
	}
	if t.P(5) {
		text += "\n\"unclosed"
		fail = true
	}
	dst := reflect.New(reflect.SliceOf(typ))
	if t.P(70) {
		pre := reflect.MakeSlice(reflect.SliceOf(typ), 2, 3)
		for j := 0; j < typ.NumField(); j++ {
			if pre.Index(0).Field(j).CanSet() {
				genField(t.Rng, pre.Index(0).Field(j))
			}
		}
		dst.Elem().Set(pre)
	}
	before := fmt.Sprintf("%+v", dst.Elem().Interface())
	ptr := dst.Elem().Pointer()
	desc := func() string { return fmt.Sprintf("text %q into %v", text, typ) }
	t.guarded(desc, func() {
		err := csv.Unmarshal(dst.Interface(), text)
		t.Eval(1)
		if err != nil {
			if !fail && !open {
				t.Failf("error %v\n  %s", err, desc())
			}
			if dst.Elem().Pointer() != ptr || fmt.Sprintf("%+v", dst.Elem().Interface()) != before {
				t.Failf("an error (%v) left the destination changed from %s to %+v\n  %s", err, before, dst.Elem().Interface(), desc())
			}
			t.Obs("refused", 1)
			return
		}
		if fail {
			t.Failf("accepted although a cell is missing or does not fit: %+v\n  %s", dst.Elem().Interface(), desc())
		}
		t.Obs("records read", n)
		got := dst.Elem()
		if got.Len() != n {
			t.Failf("%d records instead of %d\n  %s", got.Len(), n, desc())
		}
		for i := 0; i < n; i++ {
			for j := 0; j < typ.NumField(); j++ {
				a, b := got.Index(i).Field(j), want.Index(i).Field(j)
				eq := fmt.Sprintf("%v", a) == fmt.Sprintf("%v", b)
				if a.Kind() == reflect.Float32 || a.Kind() == reflect.Float64 {
					eq = a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
				}
				if !eq {
					t.Failf("record %d field %s is %v instead of %v\n  %s", i, typ.Field(j).Name, a, b, desc())
				}
				t.Obs("fields read", 1)
			}
		}
	})
	t.DistinctS(desc())
	t.Sample(desc)
}

// c26misuse: anything but a slice of structs is refused.
func c26misuse(t *T, idx int) {
	n := 3
	var nilp *[]fixedRec
	bad := []interface{}{nil, 5, "x", []int{1}, [2]fixedRec{}, fixedRec{}, &n, &[]int{1}, fixedRec{}, &fixedRec{}, map[string]fixedRec{}, nilp, []*fixedRec{{}}, &[]*fixedRec{}, []fixedRec{}, func() {}}
	v := bad[idx%len(bad)]
	desc := func() string { return fmt.Sprintf("%T", v) }
	t.guarded(desc, func() {
		t.Eval(2)
		if err := csv.Unmarshal(v, "id,B\n1,2"); err == nil {
			t.Failf("Unmarshal accepts %s", desc())
		}
		if _, ok := v.([]fixedRec); ok {
			return
		}
		if _, err := csv.Marshal([]string{"id"}, v); err == nil {
			t.Failf("Marshal accepts %s", desc())
		}
	})
	t.DistinctS(desc())
}

// ---- C27: formulas ----

// fx is an expression of the independent evaluator.
type fx struct {
	op   byte // 0: number, 'n': unary minus, else binary
	v    int64
	neg  bool // literal with a sign of its own
	l, r *fx
}

type fparse struct {
	s    string
	i    int
	open bool // a literal 9223372036854775808 after a minus sign: both readings are allowed
}

var errFormula = errors.New("no formula")

func (p *fparse) sp() {
	for p.i < len(p.s) {
		c, l := utf8.DecodeRuneInString(p.s[p.i:])
		if !csvBlank(c) && !csvBreak(c) || c == utf8.RuneError {
			return
		}
		p.i += l
	}
}

func (p *fparse) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

// expr := term (('+'|'-') term)*, term := factor (('*'|'/') factor)*, factor := '-'* ( ['+'] number | '(' expr ')' )
func (p *fparse) expr(lv int) *fx {
	next := func() *fx {
		if lv == 0 {
			return p.expr(1)
		}
		return p.factor()
	}
	ops := "+-"
	if lv == 1 {
		ops = "*/"
	}
	l := next()
	for {
		c := p.peek()
		if c == 0 || strings.IndexByte(ops, c) < 0 {
			return l
		}
		p.i++
		p.sp()
		l = &fx{op: c, l: l, r: next()}
	}
}

func (p *fparse) factor() *fx {
	minus := 0
	for p.peek() == '-' {
		p.i++
		minus++
		p.sp()
	}
	var x *fx
	if p.peek() == '(' {
		p.i++
		p.sp()
		x = p.expr(0)
		if p.peek() != ')' {
			panic(errFormula)
		}
		p.i++
		p.sp()
	} else {
		if p.peek() == '+' {
			p.i++
		}
		if !digit(p.peek()) {
			panic(errFormula)
		}
		j := p.i
		if p.s[p.i] == '0' {
			p.i++
			for p.peek() == '_' {
				p.i++
			}
		} else {
			for digit(p.peek()) || p.peek() == '_' {
				p.i++
			}
		}
		text := strings.ReplaceAll(p.s[j:p.i], "_", "")
		c := p.peek()
		if digit(c) || c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			panic(errFormula) // the number does not end here
		}
		v, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			if text == "9223372036854775808" && minus > 0 {
				p.open = true
				v = math.MinInt64
			} else {
				panic(errFormula)
			}
		}
		p.sp()
		x = &fx{v: v}
	}
	for ; minus > 0; minus-- {
		x = &fx{op: 'n', l: x}
	}
	return x
}

func refFormula(s string) (x *fx, open bool, err error) {
	p := &fparse{s: s}
	defer func() {
		if e := recover(); e != nil {
			if e != errFormula {
				panic(e)
			}
			x, open, err = nil, false, errFormula
		}
	}()
	p.sp()
	x = p.expr(0)
	if p.i != len(s) {
		return nil, false, errFormula
	}
	return x, p.open, nil
}

func (x *fx) eval() (int64, error) {
	if x.op == 0 {
		return x.v, nil
	}
	a, err := x.l.eval()
	if err != nil {
		return 0, err
	}
	if x.op == 'n' {
		return -a, nil
	}
	b, err := x.r.eval()
	if err != nil {
		return 0, err
	}
	switch x.op {
	case '+':
		return a + b, nil
	case '-':
		return a - b, nil
	case '*':
		return a * b, nil
	}
	if b == 0 {
		return 0, errFormula
	}
	return a / b, nil
}

// rpn: operands first; a sign before a plain number belongs to the number.
func (x *fx) rpn(w []interface{}) []interface{} {
	if x.op == 0 {
		return append(w, x.v)
	}
	w = x.l.rpn(w)
	if x.op == 'n' {
		y := x.l
		for y.op == 'n' {
			y = y.l
		}
		if y.op == 0 {
			w[len(w)-1] = -w[len(w)-1].(int64)
			return w
		}
		return append(w, "-")
	}
	w = x.r.rpn(w)
	return append(w, string(x.op))
}

// showFx writes an expression as a text with only the parentheses it needs, and sometimes more.
func showFx(r *Rng, x *fx, sb *strings.Builder) {
	sp := func() {
		if r.P(12) {
			sb.WriteString(pick(r, []string{" ", " ", "\t", "\n", "\u00a0", "\u0085", "  "}))
		}
	}
	prec := func(y *fx) int {
		switch y.op {
		case '+', '-':
			return 1
		case '*', '/':
			return 2
		case 'n':
			return 3
		}
		return 4
	}
	sub := func(y *fx, paren bool) {
		if paren || r.P(6) {
			sb.WriteString("(")
			sp()
			showFx(r, y, sb)
			sb.WriteString(")")
			sp()
			return
		}
		showFx(r, y, sb)
	}
	switch x.op {
	case 0:
		s := strconv.FormatInt(x.v, 10)
		if r.P(5) && len(s) > 1 {
			k := r.R(1, len(s)-1)
			s = s[:k] + strings.Repeat("_", r.R(1, 2)) + s[k:]
		}
		if r.P(3) {
			s = "+" + s
		}
		sb.WriteString(s)
		sp()
	case 'n':
		sb.WriteString("-")
		sp()
		sub(x.l, prec(x.l) < 3)
	default:
		sub(x.l, prec(x.l) < prec(x))
		sb.WriteByte(x.op)
		sp()
		sub(x.r, prec(x.r) <= prec(x))
	}
}

func genFx(r *Rng, depth int) *fx {
	if depth <= 0 || r.P(15) {
		switch r.W(60, 25, 10, 5) {
		case 0:
			return &fx{v: int64(r.N(10))}
		case 1:
			return &fx{v: int64(r.N(100000))}
		case 2:
			return &fx{v: int64(r.U64() >> uint(1+r.N(8)))}
		}
		return &fx{v: math.MaxInt64}
	}
	if r.P(15) {
		return &fx{op: 'n', l: genFx(r, depth-1)}
	}
	return &fx{op: pick(r, []byte("++--**/")), l: genFx(r, depth-1), r: genFx(r, depth-1)}
}

func c27judge(t *T, src string, want *fx, open bool, werr error) {
	desc := func() string { return fmt.Sprintf("formula %.1500q", src) }
	t.guarded(desc, func() {
		t.Eval(2)
		var wantV int64
		verr := werr
		if werr == nil {
			wantV, verr = want.eval()
		}
		v, err := formula.Parse(src)
		switch {
		case err != nil:
			if verr == nil && !open {
				t.Failf("error %v, the value is %d\n  %s", err, wantV, desc())
			}
			if v != 0 {
				t.Failf("the value %d beside the error %v\n  %s", v, err, desc())
			}
			if s := namesPlace(err, src); s != "" {
				t.Failf("%s\n  %s", s, desc())
			}
			t.Obs("formula errors", 1)
		case verr != nil:
			t.Failf("gives %d although it has no value\n  %s", v, desc())
		case v != wantV:
			t.Failf("gives %d instead of %d\n  %s", v, wantV, desc())
		default:
			t.Obs("formula values", 1)
		}
		rp, err := torpn.Parse(src)
		switch {
		case err != nil:
			if werr == nil && !open {
				t.Failf("translation: error %v\n  %s", err, desc())
			}
			if s := namesPlace(err, src); s != "" {
				t.Failf("translation: %s\n  %s", s, desc())
			}
		case werr != nil:
			t.Failf("translates to %v although it is no formula\n  %s", rp, desc())
		default:
			w := want.rpn(nil)
			if !reflect.DeepEqual(rp, w) {
				t.Failf("translates to %v instead of %v\n  %s", rp, w, desc())
			}
			t.Obs("translations", 1)
		}
	})
}

func c27valid(t *T, idx int) {
	for k := 0; k < 4; k++ {
		x := genFx(t.Rng, t.R(0, 5))
		var sb strings.Builder
		if t.P(10) {
			sb.WriteString(" ")
		}
		showFx(t.Rng, x, &sb)
		src := sb.String()
		got, open, err := refFormula(src)
		if err != nil {
			must(fmt.Errorf("the evaluator rejects %q", src))
		}
		a, e1 := x.eval()
		b, e2 := got.eval()
		if a != b || (e1 == nil) != (e2 == nil) {
			must(fmt.Errorf("the evaluator misreads %q", src))
		}
		c27judge(t, src, got, open, nil)
		if len(src) > 5 {
			t.DistinctS(src)
		}
		t.Sample(func() string { return fmt.Sprintf("%q = %d", src, b) })
	}
}

func c27near(t *T, idx int) {
	for k := 0; k < 4; k++ {
		src := genFormula(t.Rng, t.R(0, 3), 60)
		if t.P(20) {
			src = ""
			for i := t.N(10); i > 0; i-- {
				src += pick(t.Rng, []string{"1", "0", "+", "-", "-", "*", "/", "(", ")", " ", "_", "23", "9223372036854775807", "9223372036854775808", "a", "$", ".", "\n", "\xff", "٣", "1e3", "0x1"})
			}
		}
		x, open, err := refFormula(src)
		c27judge(t, src, x, open, err)
		t.DistinctS(src)
	}
}

// c27codepoints: every character in or around a formula.
func c27codepoints(t *T, idx int) {
	for c := rune(idx * cpChunk); c < rune((idx+1)*cpChunk) && c <= 0x10ffff; c++ {
		if c < 0x3000 || c >= 0xff00 && c < 0x10000 || c < 0x10000 && t.P(20) || t.P(1) {
			src := fmt.Sprintf(pick(t.Rng, []string{"%s", "1%s", "%s1", "1%s2", "1%s+2", "1+%s2", "(1%s)", "(%s1)*2", "1 %s 2", "-%s1", "2*(3%s4)"}), string(c))
			x, open, err := refFormula(src)
			c27judge(t, src, x, open, err)
		}
	}
	t.Obs("characters", cpChunk)
	t.Distinct(uint64(idx))
}

// c27big: long chains and deep nesting.
func c27big(t *T, idx int) {
	var src string
	n := t.R(50, 300)
	switch idx % 6 {
	case 0:
		src = "1" + strings.Repeat(pick(t.Rng, []string{"+1", "-1", "*1", "/1"}), n)
	case 1:
		src = strings.Repeat("(", n) + "7" + strings.Repeat(")", n)
	case 2:
		src = strings.Repeat("-", n) + "7"
	case 3:
		src = strings.Repeat("(1+", n) + "2" + strings.Repeat(")", n)
	case 4:
		for i := 0; i < n; i++ {
			src += fmt.Sprint(t.N(9)+1) + pick(t.Rng, []string{"+", "-", "*", "/"})
		}
		src += "5"
	case 5:
		src = strings.Repeat("-(", n) + "3" + strings.Repeat(")", n)
	}
	x, open, err := refFormula(src)
	c27judge(t, src, x, open, err)
	t.Obs("large formulas", 1)
	t.Distinct(uint64(idx))
}

// ---- C31: WebAssembly and other platforms ----

const repoDir = "/repo"

func workDir() string {
	d := os.Getenv("VERIF_WORK")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func goBuild(dir, out string, env ...string) error {
	c := exec.Command("go", "build", "-buildvcs=false", "-o", out, ".")
	c.Dir = dir
	c.Env = append(append(os.Environ(), "GOFLAGS=-mod=readonly"), env...)
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("go build in %s (%v): %v\n%s", dir, env, err, b)
	}
	return nil
}

func goRoot() string {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	return strings.TrimSpace(string(b))
}

const nodeScript = `
globalThis.require = require;
globalThis.fs = require("fs");
globalThis.path = require("path");
globalThis.TextEncoder = require("util").TextEncoder;
globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("performance");
globalThis.crypto ??= require("crypto");
require(process.argv[2]);
const go = new Go();
go.exit = process.exit;
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(async (r) => {
  go.run(r.instance);
  for (let i = 0; i < 1000 && !(globalThis.parseCsv && globalThis.parseFormula); i++) await new Promise(f => setTimeout(f, 5));
  const texts = JSON.parse(fs.readFileSync(process.argv[4], "utf8"));
  const call = (f, ...a) => { try { const v = f(...a); return {v: v === undefined ? "undefined" : v, t: Array.isArray(v) ? "array" : typeof v}; } catch (e) { return {e: String(e)}; } };
  const out = texts.map(s => ({c: call(globalThis.parseCsv, s), f: call(globalThis.parseFormula, s)}));
  out.push({c: call(globalThis.parseCsv), f: call(globalThis.parseFormula)});
  fs.writeFileSync(process.argv[5], JSON.stringify(out));
  process.exit(0);
}).catch((e) => { console.error(e); process.exit(7); });
`

type jsAnswer struct {
	V json.RawMessage `json:"v"`
	T string          `json:"t"`
	E string          `json:"e"`
}

func c31js(t *T, idx int) {
	d, err := os.MkdirTemp(workDir(), "js-")
	must(err)
	defer os.RemoveAll(d)
	wasm := filepath.Join(d, "main.wasm")
	must(goBuild(filepath.Join(repoDir, "wasm"), wasm, "GOOS=js", "GOARCH=wasm"))
	var texts []string
	n := 3000
	if t.Tier == "thorough" {
		n = 40000
	}
	for i := 0; i < n; i++ {
		var s string
		switch i % 5 {
		case 0:
			s = genFormula(t.Rng, t.R(0, 3), 30)
		case 1:
			s = genCsvText(t.Rng)
		case 2:
			for k := t.N(10); k > 0; k-- {
				s += pick(t.Rng, csvBits)
			}
		case 3:
			var sb strings.Builder
			showFx(t.Rng, genFx(t.Rng, t.R(0, 4)), &sb)
			s = sb.String()
		case 4:
			if i%100 == 4 {
				s = strings.Repeat(genCsvText(t.Rng)+",", 200)
			} else {
				s = numberish(t.Rng)
			}
		}
		// Go's JavaScript glue drops a byte order mark in front of a string it hands over
		texts = append(texts, strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\ufeff", ""))
	}
	in, _ := json.Marshal(texts)
	script, inF, outF := filepath.Join(d, "run.js"), filepath.Join(d, "in.json"), filepath.Join(d, "out.json")
	must(os.WriteFile(script, []byte(nodeScript), 0o600))
	must(os.WriteFile(inF, in, 0o600))
	c := exec.Command("timeout", "800", "node", "--stack-size=8192", script, filepath.Join(goRoot(), "lib/wasm/wasm_exec.js"), wasm, inF, outF)
	c.Dir = d
	b, err := c.CombinedOutput()
	raw, rerr := os.ReadFile(outF)
	if rerr != nil {
		t.Failf("the WebAssembly program ended without answering (%v)\n%s", err, short(string(b), 3000))
	}
	var ans []struct {
		C jsAnswer `json:"c"`
		F jsAnswer `json:"f"`
	}
	must(json.Unmarshal(raw, &ans))
	if len(ans) != len(texts)+1 {
		t.Failf("%d answers to %d calls", len(ans), len(texts)+1)
	}
	for i, a := range ans {
		s := ""
		if i < len(texts) {
			s = texts[i]
		}
		t.Eval(2)
		if a.C.E != "" || a.F.E != "" {
			t.Failf("a call from JavaScript fails: %s%s, text %q", a.C.E, a.F.E, short(s, 500))
		}
		rows, cerr := csv.Parse(s)
		var got [][]string
		if err := json.Unmarshal(a.C.V, &got); err != nil || a.C.T != "array" {
			t.Failf("parseCsv(%q) returns %s (%s)", short(s, 500), a.C.V, a.C.T)
		}
		if !sameTable(got, rows) {
			t.Failf("parseCsv(%q) returns %s, natively %q (error %v)", short(s, 500), a.C.V, rows, cerr)
		}
		v, ferr := formula.Parse(s)
		var num float64
		if err := json.Unmarshal(a.F.V, &num); err != nil || a.F.T != "number" || num != float64(v) {
			t.Failf("parseFormula(%q) returns %s (%s), natively %d (error %v)", short(s, 500), a.F.V, a.F.T, v, ferr)
		}
		if cerr == nil {
			t.Obs("tables from JavaScript", 1)
		}
		if ferr == nil {
			t.Obs("numbers from JavaScript", 1)
		}
		if len(s) > 2 {
			t.DistinctS(s)
		}
	}
}

// digestLine: the outcome of one numbered case, in words.
func digestCase(t *T) (name string, outs []string) {
	p := baseProfile()
	p.Rules = 3
	m := t.anyMachine(p)
	run := m.mk(nil)
	for i := 0; i < 4; i++ {
		s := m.gen(t.Rng)
		if s == "\x00skip" {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					outs = append(outs, fmt.Sprintf("%q: panic %v", s, x))
				}
			}()
			o := run(s)
			switch o.St {
			case 1 << 30:
			default:
				outs = append(outs, fmt.Sprintf("%q: %v %v nodes %s error %v", s, o.St, o.Ctx.Position, fmtAsts(o.Ctx.AstStack), o.Err))
			}
		}()
	}
	return m.name, outs
}

func digestT(seed uint64, tier string, idx int, rec *recorder) *T {
	return &T{Prop: "C31", Stage: "platforms", Idx: idx, Seed: seed, Tier: tier, rec: rec, Rng: newRng(seed, "C31", "platforms", strconv.Itoa(idx))}
}

// digestMain is run in the builds for other platforms: one line per case.
func digestMain(seed uint64, tier string, from, to int) {
	maxOp = math.MaxInt32
	rec := &recorder{obs: map[string]int64{}, distinct: map[uint64]struct{}{}}
	var sb strings.Builder
	for i := from; i < to; i++ {
		name, outs := digestCase(digestT(seed, tier, i, rec))
		h := hashStr(1, name)
		g := hashStr(2, strings.Join(outs, "\n"))
		fmt.Fprintf(&sb, "%d %016x %016x\n", i, h, g)
		if sb.Len() > 1<<16 {
			os.Stdout.WriteString(sb.String())
			sb.Reset()
		}
	}
	os.Stdout.WriteString(sb.String())
}

func c31platforms(t *T, idx int) {
	p, bin, done := otherBuild(t, idx)
	if bin == "" {
		return
	}
	defer done()
	n := 3000
	if t.Tier == "thorough" {
		n = 60000
	}
	lines := map[int][2]uint64{}
	for _, out := range runParts(p, bin, "digest", t, n, 4) {
		if k := strings.Index(out, "\nBAD "); k >= 0 {
			t.Failf("the %s/%s build does not run through: %v", p.os, p.arch, out[k+5:])
		}
		for _, l := range strings.Split(out, "\n") {
			var i int
			var a, b uint64
			if _, err := fmt.Sscanf(l, "%d %x %x", &i, &a, &b); err == nil {
				lines[i] = [2]uint64{a, b}
			}
		}
	}
	rec := &recorder{obs: map[string]int64{}, distinct: map[uint64]struct{}{}}
	for i := 0; i < n; i++ {
		name, outs := digestCase(digestT(t.Seed, t.Tier, i, rec))
		l, ok := lines[i]
		if !ok {
			t.Failf("the %s/%s build does not answer case %d", p.os, p.arch, i)
		}
		if l[0] != hashStr(1, name) {
			must(fmt.Errorf("the generators differ between platforms in case %d", i))
		}
		t.Eval(1)
		t.Obs("parses compared with "+p.arch, len(outs))
		if l[1] != hashStr(2, strings.Join(outs, "\n")) {
			t.Failf("the outcomes on %s/%s differ from those here (case %d of the digest)\n  %s\n  here:\n  %s", p.os, p.arch, i, name, strings.Join(outs, "\n  "))
		}
		t.DistinctS(name)
	}
	t.Sample(func() string { return fmt.Sprintf("%d cases on %s/%s", n, p.os, p.arch) })
}

// lightStages have few cases but cheap ones.
var lightStages = map[string]bool{"C28/stock": true, "C30/light": true, "C30/class": true, "C13/near": true, "C15/near": true, "C15/grid": true, "C22/exhaustive": true,
	"C26/misuse": true, "C12/runes": true, "C12/long": true, "C13/long": true, "C06/bytes": true, "C12/mixed": true, "C11/roll": true}

// portableStages: the stages of the other properties whose monitors depend on nothing but the library.
func portableStages(tier string) (l []portable) {
	var ids []string
	for id := range props {
		switch id {
		case "C17", "C21", "C31": // threads, inaccessible pages, itself
		default:
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		for _, st := range props[id].Stages(tier) {
			if st.N >= 1000 || lightStages[id+"/"+st.Name] {
				l = append(l, portable{id, st})
			}
		}
	}
	return l
}

type portable struct {
	id string
	st Stage
}

func (p portable) run(tier string, seed uint64, idx int, rec *recorder) *violation {
	t := &T{Prop: p.id, Stage: p.st.Name, Idx: idx, Seed: seed, Tier: tier, rec: rec, Rng: newRng(seed, p.id, p.st.Name, strconv.Itoa(idx))}
	return runCase(t, p.st.Fn)
}

// portableMain is run in the builds for other platforms: the first cases of the other properties, with their monitors.
func portableMain(seed uint64, tier string, from, to int) {
	debug.SetMemoryLimit(2 << 30)
	rec := &recorder{obs: map[string]int64{}, distinct: map[uint64]struct{}{}}
	cases := 0
	for _, p := range portableStages(tier) {
		n, bad := min(to, p.st.N), 0
		for i := from; i < n && bad < 3; i++ {
			if os.Getenv("VERIF_PORTABLE_TRACE") != "" {
				fmt.Fprintln(os.Stderr, p.id, p.st.Name, i)
			}
			cases++
			if v := p.run(tier, seed, i, rec); v != nil {
				bad++
				b, _ := json.Marshal(portableFail{p.id, p.st.Name, i, short(v.Msg, 3000)})
				fmt.Printf("FAIL %s\n", b)
			}
		}
	}
	fmt.Printf("DONE %d %d %d\n", cases, rec.evals, len(rec.distinct))
}

type portableFail struct {
	ID    string
	Stage string
	Idx   int
	Msg   string
}

// c31monitors: what the other properties' monitors accept here they accept on the other platforms, too.
func c31monitors(t *T, idx int) {
	p, bin, done := otherBuild(t, idx)
	if bin == "" {
		return
	}
	defer done()
	n := []int{400, 2400}[idx]
	if t.Tier == "thorough" {
		n *= 20
	}
	parts := runParts(p, bin, "portable", t, n, runtime.GOMAXPROCS(0))
	rec := &recorder{obs: map[string]int64{}, distinct: map[uint64]struct{}{}}
	for _, out := range parts {
		finished := false
		for _, l := range strings.Split(out, "\n") {
			var a, b, c int
			if k, _ := fmt.Sscanf(l, "DONE %d %d %d", &a, &b, &c); k == 3 {
				finished = true
				t.Obs("cases of other properties on "+p.arch, a)
				t.Eval(b)
			}
			if strings.HasPrefix(l, "FAIL ") {
				var f portableFail
				must(json.Unmarshal([]byte(l[5:]), &f))
				for _, q := range portableStages(t.Tier) {
					if q.id == f.ID && q.st.Name == f.Stage {
						if q.run(t.Tier, t.Seed, f.Idx, rec) == nil {
							t.Failf("on %s/%s, not here (monitor of %s, stage %s, case %d): %s", p.os, p.arch, f.ID, f.Stage, f.Idx, f.Msg)
						}
						t.Obs("failures here as well, judged elsewhere", 1)
					}
				}
			}
		}
		if !finished {
			t.Failf("the %s/%s build does not run through the monitors: %s", p.os, p.arch, short(out, 2000))
		}
	}
	t.Distinct(uint64(1000 + idx))
}

type plat struct{ os, arch string }

// otherBuild builds the monitors for another platform.
func otherBuild(t *T, idx int) (p plat, bin string, done func()) {
	p = []plat{{"js", "wasm"}, {"linux", "386"}}[idx]
	if p.arch == "386" && (runtime.GOARCH != "amd64" || runtime.GOOS != "linux") {
		return p, "", nil
	}
	d, err := os.MkdirTemp(workDir(), "plat-")
	must(err)
	bin = filepath.Join(d, "vrun")
	must(goBuild(filepath.Join(os.Getenv("VERIF_ROOT"), "harness"), bin, "GOOS="+p.os, "GOARCH="+p.arch, "CGO_ENABLED=0"))
	if p.arch == "386" {
		if b, err := exec.Command(bin, "list").CombinedOutput(); err != nil && strings.Contains(err.Error(), "exec format error") {
			t.Obs("386 not runnable here "+short(string(b), 50), 1)
			os.RemoveAll(d)
			return p, "", nil
		}
	}
	return p, bin, func() { os.RemoveAll(d) }
}

// runParts runs a subcommand over cases 0..n, split among several processes, and returns what each printed.
func runParts(p plat, bin, sub string, t *T, n, parts int) []string {
	res := make([]string, parts)
	var wg sync.WaitGroup
	for k := 0; k < parts; k++ {
		from, to := n*k/parts, n*(k+1)/parts
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			args := []string{sub, "-seed", fmt.Sprint(t.Seed), "-tier", t.Tier, "-from", fmt.Sprint(from), "-to", fmt.Sprint(to)}
			c := exec.Command(bin, args...)
			if p.os == "js" {
				limit := "800"
				if t.Tier == "thorough" {
					limit = "40000"
				}
				c = exec.Command("timeout", append([]string{limit, "node", "--stack-size=8192", filepath.Join(goRoot(), "lib/wasm/wasm_exec_node.js"), bin}, args...)...)
				c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/root"} // the environment's size is limited there
			}
			var eb strings.Builder
			c.Stderr = &eb
			b, err := c.Output()
			res[k] = string(b)
			if err != nil {
				res[k] += fmt.Sprintf("\nBAD %v: %s", err, short(eb.String(), 3000))
			}
		}(k)
	}
	wg.Wait()
	return res
}

func init() {
	register(&Prop{
		ID:     "C25",
		Rule:   "tables with at least one cell that needs quoting, and texts longer than four bytes, counted by content",
		Assume: []string{"tables whose rows are a single empty cell, or rows without cells, are not judged", "lenient readings of the parser (adjacent quoted parts join, blank lines vanish) are taken as its rules"},
		MinObs: map[string]int64{"tables": 5000, "accepted": 5000, "rejected": 3000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "roundtrip", N: stagesN(tier, 15000), Fn: c25roundtrip},
				{Name: "text", N: stagesN(tier, 15000), Fn: c25text},
				{Name: "codepoints", N: cpChunks, Fn: c25codepoints},
				{Name: "huge", N: 16, Fn: c25huge},
			}
		},
	})
	register(&Prop{
		ID:     "C26",
		Rule:   "a case is a generated struct type with records or with a text; counted by content",
		Assume: []string{"column names are different, each field has a column of its own or none, no embedded structs"},
		MinObs: map[string]int64{"fields written": 10000, "records read": 2000, "refused": 2000},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "marshal", N: stagesN(tier, 15000), Fn: c26marshal},
				{Name: "unmarshal", N: stagesN(tier, 25000), Fn: c26unmarshal},
				{Name: "misuse", N: 16, Fn: c26misuse},
			}
		},
	})
	register(&Prop{
		ID:     "C27",
		Rule:   "formulas (printed from random expressions) and near-formulas, counted by text",
		Assume: []string{"-9223372036854775808 may be read as a number or as minus 9223372036854775808", "in translations a sign before a plain number is part of the number"},
		MinObs: map[string]int64{"formula values": 5000, "formula errors": 3000, "translations": 5000, "large formulas": 20},
		Stages: func(tier string) []Stage {
			return []Stage{
				{Name: "valid", N: stagesN(tier, 5000), Fn: c27valid},
				{Name: "near", N: stagesN(tier, 7000), Fn: c27near},
				{Name: "big", N: stagesN(tier, 24), Fn: c27big},
				{Name: "codepoints", N: cpChunks, Fn: c27codepoints},
			}
		},
	})
	register(&Prop{
		ID:     "C31",
		Rule:   "texts longer than two characters given to the JavaScript functions, and parsers whose outcomes were compared between platforms",
		Assume: []string{"texts with byte order marks are not given to JavaScript (Go's own glue drops them)", "numbers beyond 2^53 are compared as JavaScript numbers", "platforms: js/wasm under node, linux/386, linux/amd64"},
		MinObs: map[string]int64{"tables from JavaScript": 1000, "numbers from JavaScript": 1000, "parses compared with wasm": 2000},
		Stages: func(tier string) []Stage {
			maxOp = math.MaxInt32
			return []Stage{
				{Name: "js", N: 1, Serial: true, Fn: c31js},
				{Name: "platforms", N: 2, Serial: true, Fn: c31platforms},
				{Name: "monitors", N: 2, Serial: true, Fn: c31monitors},
			}
		},
	})
}
