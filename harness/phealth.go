//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/netauth/netauth/internal/health"
)

func init() {
	register(&Check{
		ID: "P28", MinEvals: 1000,
		Rule:   "a situation is (number of registered checks, number failing, offered through the library, the request or its text)",
		Assume: []string{"the signing key check runs against real key files in the scratch directory"},
		Run:    runP28,
	})
}

func runP28(c *Ctx) {
	w := MustWorld(c, WOpts{})
	if w == nil {
		return
	}
	defer w.Close()
	type reg struct {
		name, report string
		ok           bool
		status       string
		calls        int
	}
	regs := map[string]*reg{}
	keyDir := filepath.Join(confDir, "keys")
	pem, key := filepath.Join(keyDir, "token.pem"), filepath.Join(keyDir, "token.key")
	// The signing keys are registered by the token service.
	jwtOK := func() bool {
		p, e1 := os.Stat(pem)
		k, e2 := os.Stat(key)
		return e1 == nil && e2 == nil && p.Mode().Perm() == 0644 && k.Mode().Perm() == 0400
	}
	c.CasesP("status", c.N(600, 12000), 1, func(i int, r *rand.Rand) {
		// New registrations.
		if r.Intn(6) == 0 && len(regs) < 40 {
			x := &reg{name: fmt.Sprintf("check-%d", len(regs)), ok: r.Intn(2) == 0, status: "s"}
			x.report = x.name
			if r.Intn(3) == 0 {
				x.report = "REPORT_" + x.name
			}
			regs[x.name] = x
			health.RegisterCheck(x.name, func() health.SubsystemStatus {
				x.calls++
				return health.SubsystemStatus{OK: x.ok, Name: x.report, Status: x.status}
			})
		}
		// Later ones under a taken name.
		if r.Intn(4) == 0 && len(regs) > 0 {
			x := regs[oneOf(r, sortedKeys(regs))]
			health.RegisterCheck(x.name, func() health.SubsystemStatus {
				return health.SubsystemStatus{OK: !x.ok, Name: x.report, Status: "replaced"}
			})
			c.Count("duplicate_registrations", 1)
		}
		if r.Intn(8) == 0 {
			health.RegisterCheck("JWT-RSA", func() health.SubsystemStatus {
				return health.SubsystemStatus{OK: !jwtOK(), Name: "TKN_JWT-RSA", Status: "replaced"}
			})
		}
		// Verdicts change.
		mode := r.Intn(4)
		for _, n := range sortedKeys(regs) {
			x := regs[n]
			switch mode {
			case 0:
				x.ok = true
			case 1:
				x.ok = r.Intn(2) == 0
			case 2:
				x.ok = r.Intn(10) > 0
			}
			x.status = oneOf(r, []string{"", "fine", "broken", "disk full", "a\tb"})
			x.calls = 0
		}
		if mode == 3 && len(regs) > 0 {
			for _, x := range regs {
				x.ok = true
			}
			regs[oneOf(r, sortedKeys(regs))].ok = false
		}
		if r.Intn(3) == 0 {
			os.Chmod(pem, oneOf(r, []os.FileMode{0644, 0644, 0600, 0666, 0664}))
			os.Chmod(key, oneOf(r, []os.FileMode{0400, 0400, 0600, 0440, 0444}))
		} else {
			os.Chmod(pem, 0644)
			os.Chmod(key, 0400)
		}
		type row struct {
			ok     bool
			status string
		}
		failing := 0
		want := map[string]row{"TKN_JWT-RSA": {jwtOK(), ""}}
		for _, x := range regs {
			want[x.report] = row{x.ok, x.status}
		}
		for _, v := range want {
			if !v.ok {
				failing++
			}
		}
		judge := func(how string, ok bool, first string, firstSet bool, firstOK bool, firstStatus string, rows []health.SubsystemStatus) {
			c.Eval(fmt.Sprintf("%s/%d/%d", how, len(want), failing))
			rp := map[string]interface{}{"how": how, "want": fmt.Sprint(want), "got": fmt.Sprint(rows), "ok": ok, "first": first}
			if ok != (failing == 0) {
				c.Violate("verdict:"+how, fmt.Sprintf("reported healthy=%v with %d of %d failing", ok, failing, len(want)), rp)
			}
			got := map[string]int{}
			for _, s := range rows {
				got[s.Name]++
				x, known := want[s.Name]
				if !known {
					c.Violate("unknown:"+how, "reports a check nobody registered: "+s.Name, rp)
				} else if s.OK != x.ok {
					c.Violate("row:"+how, fmt.Sprintf("check %s reported ok=%v, is %v", s.Name, s.OK, x.ok), rp)
				} else if s.Name != "TKN_JWT-RSA" && s.Status != x.status {
					c.Violate("status:"+how, fmt.Sprintf("check %s reported %q, said %q", s.Name, s.Status, x.status), rp)
				}
			}
			for n := range want {
				if got[n] != 1 {
					c.Violate("count:"+how, fmt.Sprintf("check %s is listed %d times", n, got[n]), rp)
				}
			}
			if failing > 0 {
				x, known := want[first]
				if !firstSet || !known || x.ok || firstOK {
					c.Violate("first:"+how, fmt.Sprintf("the failing subsystem named is %q", first), rp)
				} else if first != "TKN_JWT-RSA" && firstStatus != x.status {
					c.Violate("first-status:"+how, fmt.Sprintf("the failing subsystem %q is reported with %q", first, firstStatus), rp)
				}
			} else if firstSet && first != "" {
				c.Violate("first-when-healthy:"+how, fmt.Sprintf("healthy, and names %q as failing", first), rp)
			}
		}
		s := health.Check()
		judge("library", s.OK, s.FirstFailure.Name, s.FirstFailure != (health.SubsystemStatus{}), s.FirstFailure.OK, s.FirstFailure.Status, s.Subsystems)
		for _, x := range regs {
			if x.calls != 1 {
				c.Violate("calls", fmt.Sprintf("one status request polled check %s %d times", x.name, x.calls), nil)
			}
		}
		p := s.Proto()
		rows := []health.SubsystemStatus{}
		for _, x := range p.GetSubSystems() {
			rows = append(rows, health.SubsystemStatus{OK: x.GetOK(), Name: x.GetName(), Status: x.GetFaultMessage()})
		}
		judge("message", p.GetSystemOK(), p.GetFirstFailure().GetName(), p.GetFirstFailure() != nil, p.GetFirstFailure().GetOK(), p.GetFirstFailure().GetFaultMessage(), rows)
		q := Exec(ctxNone(), w.Srv, Op{K: "SystemStatus"})
		if !q.OK() {
			c.Violate("request", "a status request failed: "+q.Err, nil)
		} else {
			rows = nil
			for _, x := range q.Stat.GetSubSystems() {
				rows = append(rows, health.SubsystemStatus{OK: x.GetOK(), Name: x.GetName(), Status: x.GetFaultMessage()})
			}
			judge("request", q.Stat.GetSystemOK(), q.Stat.GetFirstFailure().GetName(), q.Stat.GetFirstFailure() != nil, q.Stat.GetFirstFailure().GetOK(), q.Stat.GetFirstFailure().GetFaultMessage(), rows)
		}
		// The text form says the same.
		txt := s.String()
		c.Eval("text")
		head := strings.SplitN(txt, "\n", 2)[0]
		if strings.Contains(head, "PASS") != (failing == 0) || strings.Contains(head, "FAIL") != (failing > 0) {
			c.Violate("text", fmt.Sprintf("the text says %q with %d failing", head, failing), txt)
		}
		if strings.Contains(txt, "[FAIL]") != (failing > 0) {
			c.Violate("text-rows", fmt.Sprintf("the text does not show what fails (%d failing)", failing), txt)
		}
		if c.NeedSample() && i > 50 {
			c.Sample(map[string]interface{}{"checks": len(want), "failing": failing})
		}
	})
	os.Chmod(pem, 0644)
	os.Chmod(key, 0400)
}
