package main

import (
	"fmt"
	"os"

	"verif/mc/eng"
	"verif/mc/ref"
)

// run executes the demonstration.
func run(f func(t *eng.T)) {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	r := eng.NewRun("demo", "quick", "model_checking")
	r.Do(eng.Case{Name: "demo", Run: f})
	code := r.Finish(dir, eng.Meta{})
	os.RemoveAll(dir)
	os.Exit(code)
}

// build makes a group of n members and performs operations on it.
func build(t *eng.T, s ref.Suite, n int, ops ...eng.Op) *eng.World {
	w := eng.ModelWorld(t, s, []byte("group"), "demo", n, 2)
	for k, o := range ops {
		w, _ = w.Step(t, o, fmt.Sprint("demo", k))
		w.Complete(t.Run)
		if t.Failed() {
			return w
		}
	}
	return w
}

func path(by int) eng.Op { return eng.Op{By: by, Path: true} }

// refuse demands that a member rejects a message.
func refuse(t *eng.T, w *eng.World, i int, what string, msgs ...[]byte) {
	c := eng.Clone(w.R[i])
	for k, m := range msgs {
		_, err := eng.Proc(c, m)
		if k == len(msgs)-1 && err == nil {
			t.Fail("%s: leaf %d accepts", what, i)
		}
		if eng.Panicked(err) {
			t.Fail("%s: leaf %d: %v", what, i, err)
		}
	}
}
