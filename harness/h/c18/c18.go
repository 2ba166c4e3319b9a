// Package c18 checks the statistics computed over body entries.
package c18

import (
	"errors"
	"io"
	"math"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dsstats/histosketch"
	"github.com/qri-io/qfs"
	"verifh/u"
	"verifh/v"
)

// rows feeds the values of one column, as array rows, object rows or bare values, and gives the column's statistics.
func column(shape int, vals []interface{}) map[string]interface{} {
	acc := dsstats.NewAccumulator(u.ArrayStruct("json"))
	for i, x := range vals {
		e := dsio.Entry{Index: i}
		switch shape {
		case 0:
			e.Value = x
		case 1:
			e.Value = []interface{}{x, true}
		case 2:
			e.Value = map[string]interface{}{"k": x, "l": nil}
		}
		v.Assert(acc.WriteEntry(e) == nil, "statistics accept every entry")
	}
	v.Assert(acc.Close() == nil, "statistics close")
	m := dsstats.ToMap(acc)
	if shape == 0 && v.Pick(2) == 1 {
		v.Assert(acc.Close() == nil, "statistics close again")
		l := dsstats.ToMap(acc)
		v.Assert(len(l) == len(m) && u.EqVal(l[0]["mean"], m[0]["mean"]) && u.EqVal(l[0]["count"], m[0]["count"]) && u.EqVal(l[0]["median"], m[0]["median"]), "closing again changes nothing")
	}
	n := 1
	if shape > 0 {
		n = 2
	}
	v.Assert(len(m) == n, "every column has statistics")
	if shape == 1 {
		v.Assert(m[1]["type"] == "boolean" && m[1]["count"] == len(vals) && m[1]["trueCount"] == len(vals) && m[1]["falseCount"] == 0, "columns are counted apart")
	}
	if shape == 2 {
		v.Assert(m[0]["key"] == "k" && m[1]["key"] == "l", "object columns are listed by key in order")
		v.Assert(m[1]["type"] == "null" && m[1]["count"] == len(vals), "columns are counted apart")
	}
	return m[0]
}

func number(k int) (interface{}, float64) {
	switch k {
	case 0:
		f := v.Float64()
		v.Assume(f == f && f < math.MaxFloat64 && f > -math.MaxFloat64)
		return f, f
	case 1:
		x := int64(int32(v.Uint32()))
		return x, float64(x)
	case 2:
		x := int(int32(v.Uint32()))
		return x, float64(x)
	case 3:
		x := int32(v.Uint32())
		return x, float64(x)
	case 4:
		f := math.Float32frombits(v.Uint32())
		v.Assume(f == f && f <= math.MaxFloat32 && f >= -math.MaxFloat32)
		return f, float64(f)
	}
	return nil, 0
}

// H_C18_numbers: arbitrary numbers of every numeric type; count, minimum and maximum are exact.
func H_C18_numbers() {
	k := v.Case(5)
	n := 1 + v.Case(v.Bound(3, 4))
	shape := v.Pick(3)
	vals := make([]interface{}, n)
	fs := make([]float64, n)
	for i := range vals {
		vals[i], fs[i] = number(k)
	}
	st := column(shape, vals)
	v.Assert(st["type"] == "numeric" && st["count"] == n, "every number is counted")
	min, ok1 := st["min"].(float64)
	max, ok2 := st["max"].(float64)
	v.Assert(ok1 && ok2, "minimum and maximum are reported")
	le, eqmin, eqmax := true, false, false
	for _, f := range fs {
		le = v.And(le, v.And(min <= f, f <= max))
		eqmin = v.Or(eqmin, f == min)
		eqmax = v.Or(eqmax, f == max)
	}
	v.Assert(le, "no number lies outside minimum and maximum")
	v.Assert(eqmin && eqmax, "minimum and maximum are numbers of the column")
	v.Reach("numbers")
}

// H_C18_mean: every sequence of up to 4 numbers of a small set; mean exact, median within range, histogram counts all.
func H_C18_mean() {
	set := []interface{}{float64(1), int64(-4), 2, 0.5, int32(1), float32(1024), 1e19, -3e18}
	fs := []float64{1, -4, 2, 0.5, 1, 1024, 1e19, -3e18}
	n := 1 + v.Case(v.Bound(3, 4))
	v.Pick(1)
	vals := make([]interface{}, n)
	sum := 0.0
	min, max := math.Inf(1), math.Inf(-1)
	for i := range vals {
		k := v.Pick(len(set))
		vals[i] = set[k]
		sum += fs[k]
		min, max = math.Min(min, fs[k]), math.Max(max, fs[k])
	}
	st := column(0, vals)
	v.Assert(st["min"] == min && st["max"] == max, "minimum and maximum are exact")
	v.Assert(st["mean"] == sum/float64(n), "the mean is the sum over the count")
	med, ok := st["median"].(float64)
	v.Assert(ok && med >= min && med <= max, "the median lies within the range")
	histogram(st, n)
	v.Reach("mean")
}

func histogram(st map[string]interface{}, n int) {
	h, ok := st["histogram"].(map[string][]float64)
	v.Assert(ok, "a histogram is reported")
	bins, freq := h["bins"], h["frequencies"]
	v.Assert(len(bins) == len(freq)+1, "a histogram has one more bound than bins")
	total := 0.0
	for i, f := range freq {
		v.Assert(f > 0, "no bin of a histogram is empty or negative")
		v.Assert(bins[i] < bins[i+1] || i == len(freq)-1 && bins[i] == bins[i+1], "bins are in order")
		total += f
	}
	v.Assert(total == float64(n), "a histogram counts every number")
}

// H_C18_histogram: more distinct numbers than bins.
func H_C18_histogram() {
	old := dsstats.HistogramCentroidCount
	dsstats.HistogramCentroidCount = uint(1 + v.Case(v.Bound(2, 3)))
	n := v.Bound(4, 5)
	vals := make([]interface{}, n)
	min, max := 1000.0, -1000.0
	for i := range vals {
		f := float64(v.Pick(n + 1))
		vals[i] = f
		min, max = math.Min(min, f), math.Max(max, f)
	}
	st := column(0, vals)
	dsstats.HistogramCentroidCount = old
	v.Assert(st["count"] == n, "every number is counted")
	med, ok := st["median"].(float64)
	v.Assert(ok && med >= min && med <= max, "the median lies within the range")
	histogram(st, n)
	v.Reach("histogram")
}

// H_C18_strings: arbitrary strings; count, lengths and frequencies are exact.
func H_C18_strings() {
	n := 1 + v.Case(v.Bound(3, 4))
	shape := v.Pick(3)
	vals := make([]interface{}, n)
	ss := make([]string, n)
	min, max := 1000, -1
	for i := range vals {
		ss[i] = v.String(v.Pick(3))
		vals[i] = ss[i]
		if len(ss[i]) < min {
			min = len(ss[i])
		}
		if len(ss[i]) > max {
			max = len(ss[i])
		}
	}
	st := column(shape, vals)
	v.Assert(st["type"] == "string" && st["count"] == n, "every string is counted")
	v.Assert(st["minLength"] == min && st["maxLength"] == max, "minimum and maximum length are exact")
	fr, ok := st["frequencies"].(map[string]int)
	v.Assert(ok, "frequencies are reported")
	total := 0
	for _, s := range ss {
		want := 0
		for _, t := range ss {
			if s == t {
				want++
			}
		}
		v.Assert(fr[s] == want, "the frequency of a string is the number of its occurrences")
	}
	for _, c := range fr {
		total += c
	}
	v.Assert(total == n, "frequencies count every string once")
	v.Reach("strings")
}

// H_C18_long: strings around the length at which keys are cut.
func H_C18_long() {
	base := "0123456789012345678901234567890123456"
	n := 2 + v.Pick(2)
	vals := make([]interface{}, n)
	min, max := 1000, -1
	for i := range vals {
		s := base + v.String(1) + []string{"", "ab", "abc", "xyzw"}[v.Pick(4)]
		vals[i] = s
		if len(s) < min {
			min = len(s)
		}
		if len(s) > max {
			max = len(s)
		}
	}
	st := column(0, vals)
	v.Assert(st["count"] == n && st["minLength"] == min && st["maxLength"] == max, "long strings are counted and measured")
	total := 0
	for _, c := range st["frequencies"].(map[string]int) {
		total += c
	}
	v.Assert(total == n, "frequencies count every string once")
	v.Reach("long")
}

// H_C18_mixed: columns of mixed types: only values of the type of the first one are counted.
func H_C18_mixed() {
	n := 1 + v.Case(v.Bound(4, 5))
	shape := v.Pick(3)
	vals := make([]interface{}, n)
	kind := -1
	count, yes := 0, 0
	for i := range vals {
		k := v.Pick(4)
		if i == 0 {
			kind = k
		}
		if k == kind {
			count++
		}
		switch k {
		case 0:
			vals[i] = "x"
		case 1:
			vals[i] = int64(1)
			if i%2 == 1 {
				vals[i] = float64(1)
			}
		case 2:
			b := v.Bool()
			vals[i] = b
			if b && kind == 2 {
				yes++
			}
		}
	}
	st := column(shape, vals)
	v.Assert(st["type"] == []string{"string", "numeric", "boolean", "null"}[kind], "the type of a column is that of its first value")
	v.Assert(st["count"] == count, "values of the column's type are counted")
	if kind == 2 {
		v.Assert(st["trueCount"] == yes && st["falseCount"] == count-yes, "true and false values are counted")
		v.Reach("bool")
	}
	v.Reach("mixed")
}

// H_C18_ragged: rows of different lengths or keys; every column is counted on its own, and entries are left alone.
func H_C18_ragged() {
	obj := v.Case(2) == 1
	n := v.Bound(3, 4)
	keys := []string{"b", "a", "c"}
	counts := make([]int, 3)
	acc := dsstats.NewAccumulator(u.ArrayStruct("json"))
	for i := 0; i < n; i++ {
		if obj {
			m := map[string]interface{}{}
			has := v.Pick(8)
			for j, k := range keys {
				if has>>uint(j)&1 == 1 {
					m[k] = int64(j)
					counts[j]++
				}
			}
			size := len(m)
			acc.WriteEntry(dsio.Entry{Index: i, Value: m})
			v.Assert(len(m) == size, "entries are left alone")
			for j, k := range keys {
				if has>>uint(j)&1 == 1 {
					v.Assert(m[k] == int64(j), "entries are left alone")
				}
			}
		} else {
			row := []interface{}{int64(0), int64(1), int64(2)}[:v.Pick(4)]
			for j := range row {
				counts[j]++
			}
			acc.WriteEntry(dsio.Entry{Index: i, Value: row})
			for j := range row {
				v.Assert(row[j] == int64(j), "entries are left alone")
			}
		}
	}
	acc.Close()
	st := dsstats.ToMap(acc)
	at := 0
	check := func(j int, key string) {
		if counts[j] == 0 {
			return
		}
		v.Assert(at < len(st), "every column has statistics")
		v.Assert(st[at]["count"] == counts[j] && st[at]["min"] == float64(j) && st[at]["max"] == float64(j), "columns are counted apart")
		if obj {
			v.Assert(st[at]["key"] == key, "object columns are listed by key in order")
		}
		at++
	}
	if obj {
		check(1, "a")
		check(0, "b")
		check(2, "c")
	} else {
		check(0, "")
		check(1, "")
		check(2, "")
	}
	v.Assert(at == len(st), "only columns that occur have statistics")
	v.Reach("ragged")
}

type src struct {
	st   *dataset.Structure
	n    int
	fail int
	i    int
	end  error
}

func (s *src) Structure() *dataset.Structure { return s.st }
func (s *src) ReadEntry() (dsio.Entry, error) {
	if s.i == s.fail {
		return dsio.Entry{}, s.end
	}
	if s.i == s.n {
		return dsio.Entry{}, io.EOF
	}
	s.i++
	return dsio.Entry{Index: s.i - 1, Value: int64(s.i)}, nil
}
func (s *src) Close() error { return nil }

// H_C18_reader: statistics of a reader cover every entry up to end-of-file, and a read error is reported.
func H_C18_reader() {
	n := v.Pick(4)
	s := &src{st: u.ArrayStruct("json"), n: n, fail: v.Pick(5) - 1, end: errors.New("broken")}
	st, err := dsstats.CalculateFromEntryReader(s)
	if s.fail >= 0 && s.fail <= n {
		v.Assert(err != nil, "a read error is reported")
		v.Assert(st == nil, "no statistics are given after a read error")
		v.Reach("error")
		return
	}
	v.Assert(err == nil && st != nil && st.Qri == "sa:0", "statistics are given")
	m, ok := st.Stats.([]map[string]interface{})
	v.Assert(ok, "statistics are a list of maps")
	if n == 0 {
		v.Assert(len(m) == 0, "an empty body has no statistics")
		return
	}
	v.Assert(len(m) == 1 && m[0]["count"] == n && m[0]["min"] == 1.0 && m[0]["max"] == float64(n) && m[0]["mean"] == float64(n+1)/2, "statistics cover every entry")
	v.Reach("reader")
}

// H_C18_body: statistics of JSON bodies holding arbitrary small integers and booleans.
func H_C18_body() {
	d := v.Byte()
	v.Assume(d >= '0' && d <= '9')
	e := v.Byte()
	v.Assume(e >= '0' && e <= '9')
	body := []byte(`[[` + string([]byte{d}) + `,true],[` + string([]byte{e}) + `,false],[null,true]]`)
	ds := &dataset.Dataset{Structure: u.ArrayStruct("json")}
	_, err := dsstats.Calculate(ds)
	v.Assert(err != nil, "a body is needed")
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", body))
	st, err := dsstats.Calculate(ds)
	v.Assert(err == nil, "statistics of a body are given")
	m := st.Stats.([]map[string]interface{})
	v.Assert(len(m) == 2 && m[0]["count"] == 2 && m[1]["count"] == 3 && m[1]["trueCount"] == 2 && m[1]["falseCount"] == 1, "statistics cover every row")
	lo, hi := d, e
	if e < d {
		lo, hi = e, d
	}
	v.Assert(m[0]["min"] == float64(lo-'0') && m[0]["max"] == float64(hi-'0'), "minimum and maximum are exact")
	ds = &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", body))
	_, err = dsstats.Calculate(ds)
	v.Assert(err != nil, "a structure is needed")
	v.Reach("body")
}

// H_C18_many: 31 to 300 numbers in one of several orders, with the default number of bins (32); the distance between them is any of a set.
func H_C18_many() {
	n := []int{31, 32, 33, 34, 64, 65, 100, 300}[v.Case(8)]
	v.Steps(40000000)
	step := []float64{1, 0.25, -7, 1e18}[v.Pick(4)]
	order := v.Pick(4)
	shape := v.Pick(3)
	vals := make([]interface{}, n)
	sum, min, max := 0.0, math.Inf(1), math.Inf(-1)
	for i := range vals {
		f := float64(i) * step
		switch order {
		case 1:
			f = float64(n-i) * step
		case 2:
			f = float64((i*37)%n) * step
		case 3:
			f = float64(i*i%50) * step
		}
		vals[i] = f
		sum += f
		min, max = math.Min(min, f), math.Max(max, f)
	}
	st := column(shape, vals)
	v.Assert(st["count"] == n && st["min"] == min && st["max"] == max, "every number is counted and compared")
	v.Assert(st["mean"] == sum/float64(n), "the mean is the sum over the count")
	med, ok := st["median"].(float64)
	v.Assert(ok && med >= min && med <= max, "the median lies within the range")
	histogram(st, n)
	v.Reach("many")
}

// H_C18_distinct: 1 to 200 different texts (as many as are tracked), one of them with an arbitrary letter, each once, twice or three times.
func H_C18_distinct() {
	n := []int{1, 2, 10, 50, 127, 128, 199, 200}[v.Case(8)]
	v.Steps(60000000)
	var vals []interface{}
	want := map[string]int{}
	c := v.Byte()
	v.Assume(v.And(c >= 'a', c <= 'z'))
	for i := 0; i < n; i++ {
		s := string([]byte{'s', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		if i == n/2 {
			s = string([]byte{c})
		}
		for k := 0; k <= i%3; k++ {
			vals = append(vals, s)
		}
		want[s] = i%3 + 1
	}
	st := column(v.Pick(2), vals)
	v.Assert(st["type"] == "string" && st["count"] == len(vals), "every string is counted")
	fr, ok := st["frequencies"].(map[string]int)
	v.Assert(ok && len(fr) == n, "every text has its frequency")
	for s, k := range want {
		v.Assert(fr[s] == k, "the frequency of a string is the number of its occurrences")
	}
	v.Reach("distinct")
}

// H_C18_sketch: two sketches of 1 or 2 centroids over 1..4 (5) values from a table, or of 3 over 1..2 (3) arbitrary finite values, merged: counts, extremes and the histogram cover every value; in the first case the median lies between the extremes.
func H_C18_sketch() {
	n := v.Case(v.Bound(4, 5)) + 1
	first := v.Case(6)
	v.Assume(first <= n)
	ca, cb := uint(1+v.Pick(2)), uint(1+v.Pick(2))
	any := n < v.Bound(3, 4) && v.Bool()
	if any {
		ca, cb = 3, 3
	}
	a, b := histosketch.New(ca), histosketch.New(cb)
	min, max := math.Inf(1), math.Inf(-1)
	for i := 0; i < n; i++ {
		x := []float64{-3, 0, 2.5}[v.Pick(3)]
		if any {
			x = v.Float64()
			v.Assume(x == x && x < math.MaxFloat64 && x > -math.MaxFloat64)
		}
		if i < first {
			a.Add(x)
		} else {
			b.Add(x)
		}
		if x < min {
			min = x
		}
		if x > max {
			max = x
		}
	}
	v.Assert(a.Count() == float64(first) && b.Count() == float64(n-first), "a sketch counts its values")
	a.Merge(*b)
	v.Assert(a.Count() == float64(n), "a merged sketch counts the values of both")
	v.Assert(a.Min() == min && a.Max() == max, "a merged sketch has the extremes of both")
	_, freq := a.Read()
	sum := 0.0
	for _, f := range freq {
		v.Assert(f > 0, "frequencies are positive")
		sum += f
	}
	v.Assert(sum == float64(n), "frequencies add up to the count")
	v.Assert(a.Sum(max) == float64(n) && (any || a.Sum(min-1) == 0), "sums run from none to all")
	if any {
		v.Reach("any")
		return
	}
	m := a.Median()
	v.Assert(m >= min && m <= max, "the median lies between the extremes")
	v.Reach("sketch")
}

// H_C18_encode: sketches of 1..3 centroids over 1..4 values from a table decode to the same counts, extremes and histogram; cut encodings are an error.
func H_C18_encode() {
	n := v.Case(4) + 1
	a := histosketch.New(uint(1 + v.Pick(3)))
	for i := 0; i < n; i++ {
		a.Add([]float64{-3, 0.1, 1e300}[v.Pick(3)])
	}
	data, err := a.MarshalBinary()
	v.Assert(err == nil, "a sketch encodes")
	b := histosketch.New(1)
	b.Add(7)
	v.Assert(b.UnmarshalBinary(data) == nil, "an encoded sketch decodes")
	v.Assert(b.Count() == a.Count() && b.Min() == a.Min() && b.Max() == a.Max(), "a decoded sketch has the same count and extremes")
	p, f := a.Read()
	q, g := b.Read()
	v.Assert(len(p) == len(q) && len(f) == len(g), "a decoded sketch has the same histogram")
	for i := range p {
		v.Assert(p[i] == q[i], "a decoded sketch has the same histogram")
	}
	for i := range f {
		v.Assert(f[i] == g[i], "a decoded sketch has the same histogram")
	}
	v.Assert(a.Median() == b.Median(), "a decoded sketch has the same median")
	cut := len(data) - 2 - v.Pick(len(data)-2)
	for cut > 0 && data[cut-1] != '\n' {
		cut--
	}
	v.Assert(b.UnmarshalBinary(data[:cut]) != nil, "a cut encoding is an error")
	v.Reach("encode")
}
