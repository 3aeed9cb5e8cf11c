package ddl

import "testing"

// TestReplay compares all pairs of versions of up to three small components.
func TestReplay(t *testing.T) {
	var all [][]int
	for n := 0; n <= 3; n++ {
		for k := 0; k < 64; k++ {
			v := []int{k & 3, k >> 2 & 3, k >> 4}[:n]
			all = append(all, v)
		}
	}
	at := func(v []int, i int) int {
		if i < len(v) {
			return v[i]
		}
		return 0
	}
	for _, v := range all {
		for _, w := range all {
			want := false
			for i := 0; i < 3 && len(v) > 0; i++ {
				if at(v, i) != at(w, i) {
					want = at(v, i) < at(w, i)
					break
				}
			}
			guard(t, "compare", func() {
				if got := VersionNums(v).LowerThan(w...); got != want {
					t.Errorf("VersionNums(%v).LowerThan(%v) = %v", v, w, got)
				}
				if got := VersionNums(v).GreaterOrEqualTo(w...); got == want {
					t.Errorf("VersionNums(%v).GreaterOrEqualTo(%v) = %v", v, w, got)
				}
			})
		}
	}
}
