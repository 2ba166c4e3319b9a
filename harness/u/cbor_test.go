package u

import (
	"math"
	"testing"
)

func TestHalf(t *testing.T) {
	for h := 0; h < 65536; h++ {
		got := math.Float64frombits(half(uint64(h)))
		e, f := h>>10&31, float64(h&1023)
		var want float64
		switch {
		case e == 31 && f != 0:
			want = math.NaN()
		case e == 31:
			want = math.Inf(1)
		case e == 0:
			want = f * math.Pow(2, -24)
		default:
			want = (1 + f/1024) * math.Pow(2, float64(e-15))
		}
		if h&0x8000 != 0 {
			want = -want
		}
		if got != want && !(got != got && want != want) {
			t.Fatal(h, got, want)
		}
	}
}
