// Package hook is what instrumented copies of the sources of /repo call
// before every statement (see ../instr). It counts steps, so that a run away
// loop or recursion is found by a deterministic count and not by a clock, and
// it is where the scheduler of the interleaving explorer takes control.
package hook

// Steps since it was last set to 0, and how many are allowed
var (
	Steps uint64
	Limit uint64 = ^uint64(0)
)

// OnPoint, if set, is called before every statement
var OnPoint func()

// Overrun is the value of the panic that ends a run away execution
type Overrun struct{ Steps uint64 }

func (o Overrun) Error() string { return "step limit exceeded" }

// Hit is called before every statement
func Hit() {
	Steps++
	if Steps > Limit {
		Limit = ^uint64(0) // let deferred functions run
		panic(Overrun{Steps})
	}
	if OnPoint != nil {
		OnPoint()
	}
}

// Instrumented is changed by the instrumenter, in a copy of this file
const Instrumented = false
