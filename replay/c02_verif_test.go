package ddl

import "testing"

// TestReplay makes each database call of each scenario fail in turn and follows
// the transactions at the connection.
func TestReplay(t *testing.T) {
	eachFault(t, nil, func(s scenario, e *env, fault string, err error) {
		if n := e.r.left("tx"); n != 0 {
			t.Errorf("%s: %s failed: %d transaction(s) left open\n%s", s.name, fault, n, lines(e.r.log()))
		}
		bad := map[int]bool{}
		open := map[int]bool{}
		for _, ev := range e.r.log() {
			switch ev.Kind {
			case "begin":
				if ev.Err == nil {
					open[ev.Conn], bad[ev.Conn] = true, false
				}
			case "commit":
				if bad[ev.Conn] {
					t.Errorf("%s: %s failed: the transaction is committed all the same\n%s", s.name, fault, lines(e.r.log()))
				}
				delete(open, ev.Conn)
			case "rollback":
				delete(open, ev.Conn)
			case "exec", "stmtexec", "query", "prepare":
				if ev.InTx && ev.Err != nil {
					bad[ev.Conn] = true
				}
				if !ev.InTx && s.dialect == DialectSQLite && len(open) > 0 {
					t.Errorf("%s: %s failed: statement outside the open transaction: %s\n%s", s.name, fault, ev, lines(e.r.log()))
				}
			}
		}
	})
}
