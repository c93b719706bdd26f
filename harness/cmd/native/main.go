// Command native runs one harness on recorded inputs against the real build.
package main

import (
	"encoding/json"
	"os"

	"verif/harness/p"
	"verif/harness/v"
)

type job struct {
	Harness string
	Ins     []v.In
	Free    bool
}

func main() {
	var j job
	real := os.Stdout
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	f := p.Harnesses()[j.Harness]
	r := &v.Result{Status: "missing", Msg: j.Harness}
	if f != nil {
		p.WarmupNative()
		if j.Free {
			r = v.RunFree(f, j.Ins)
		} else {
			r = v.Run(f, j.Ins)
		}
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	real.Write(b)
}
