package props

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// RunAudit runs the properties named by VERIF_AUDIT with a fraction of their
// quick cases and writes one line for each that fails; for tools/audit.sh.
func RunAudit(t *testing.T) {
	ids := strings.Split(os.Getenv("VERIF_AUDIT"), ",")
	if ids[0] == "" {
		t.Skip("VERIF_AUDIT names no property")
	}
	out, err := os.Create(os.Getenv("VERIF_STATUS"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	div, _ := strconv.Atoi(os.Getenv("VERIF_DIV"))
	if div < 1 {
		div = 1
	}
	for _, id := range ids {
		p := Registry[id]
		if p == nil {
			continue
		}
		var msg string
		n := 0
		if p.Extra != nil && div == 1 {
			p.Extra(false, func(c interface{}, r *Result) {
				if len(r.Fail) > 0 && msg == "" {
					msg = r.Fail[0]
				}
			})
		}
		if msg == "" && p.Gen != nil {
			flag.Set("rapid.checks", fmt.Sprint(p.Quick/div+1))
			t.Run(id, func(t *testing.T) {
				rapid.Check(t, func(rt *rapid.T) {
					n++
					r := p.Check(p.Gen(rt))
					if len(r.Fail) > 0 {
						if msg == "" {
							msg = fmt.Sprintf("(case %d) %s", n, r.Fail[0])
						}
						rt.Fatalf("%s", r.Fail[0])
					}
				})
			})
		}
		if msg != "" {
			if len(msg) > 300 {
				msg = msg[:300]
			}
			fmt.Fprintf(out, "%s\t%q\n", id, msg)
		}
	}
	fmt.Fprintln(out, "done")
}
