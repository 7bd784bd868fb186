package healer

// Native replay of solver assignments: one case per process, in a synctest
// bubble (virtual time; a durable deadlock of the bubble panics).

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime/debug"
	"testing"
	"testing/synctest"
)

type vpCase struct {
	Harness string `json:"harness"`
	Tier    int    `json:"tier"`
	Inputs  []struct {
		Name string `json:"name"`
		V    uint64 `json:"v"`
	} `json:"inputs"`
}

type vpOutcome struct {
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic"`
	Stack   string   `json:"stack"`
	Assume  bool     `json:"assume"`
	Reached []string `json:"reached"`
	Missing []string `json:"missing"`
	Done    bool     `json:"done"`
}

func TestVPReplay(t *testing.T) {
	in := os.Getenv("VP_CASE")
	if in == "" {
		t.Skip()
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var c vpCase
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	f := vpRegistry[c.Harness]
	if f == nil {
		t.Fatal("no harness " + c.Harness)
	}
	vpTierV = c.Tier
	net.VPDialHook = vpModelDialer
	tls.VPDialHook, tls.VPKeyPairHook, x509.VPCAHook = vpModelTLSDial, vpModelKeyPair, vpModelCA
	for _, v := range c.Inputs {
		if v.Name == "rand#0" {
			rand.VPRandHook = func() int64 { return int64(vpGet("rand")) }
		}
	}
	synctest.Test(t, func(t *testing.T) {
		vpWaitHook = synctest.Wait
		var out vpOutcome
		vpR = &vpReplayState{vals: map[string]uint64{}, cnt: map[string]int{}, reached: map[string]bool{}}
		for _, v := range c.Inputs {
			vpR.vals[v.Name] = v.V
		}
		vpDialHook = nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vpAssumeFailed); ok {
						out.Assume = true
						return
					}
					out.Panic = fmt.Sprint(r)
					out.Stack = string(debug.Stack())
				}
			}()
			f()
		}()
		out.Fails = vpR.fails
		out.Missing = vpR.missing
		for k := range vpR.reached {
			out.Reached = append(out.Reached, k)
		}
		out.Done = true
		ob, _ := json.Marshal(out)
		os.WriteFile(os.Getenv("VP_OUT"), ob, 0644)
		os.Exit(0) // goroutines of the harness may still be running
	})
}
