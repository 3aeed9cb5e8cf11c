package ddl

import (
	"os"
	"path/filepath"
	"testing"
)

// TestReplay makes each operation of each scenario fail in turn and expects an
// error.
func TestReplay(t *testing.T) {
	eachFault(t, nil, func(s scenario, e *env, fault string, err error) {
		if fault == "" && err != nil {
			t.Logf("%s: fails without a fault: %v", s.name, err)
		}
		if fault != "" && err == nil {
			t.Errorf("%s: %s failed, but the operation returned no error\n%s", s.name, fault, lines(e.r.log()))
		}
	})
	// Output files that cannot be written: each one in turn is a link to a device
	// that is always full.
	for _, s := range scenarios() {
		s := s
		e := s.newEnv(t)
		guard(t, s.name, func() { s.run(e) })
		out := readTree(e.dir)
		e.close()
		for name, text := range out {
			if text == "" {
				continue
			}
			e := s.newEnv(t)
			path := filepath.Join(e.dir, name)
			os.MkdirAll(filepath.Dir(path), 0755)
			os.Remove(path)
			if os.Symlink("/dev/full", path) != nil {
				e.close()
				continue
			}
			var err error
			guard(t, s.name, func() { err = s.run(e) })
			if err == nil {
				t.Errorf("%s: the disk is full when %s is written, but the operation returned no error", s.name, name)
			}
			e.close()
		}
	}
}
