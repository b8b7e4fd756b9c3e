//go:build nov1measure

package checks

import "github.com/recolude/rap/zzverif/eng"

// v1Measured explores nothing where the helpers that measure version 1
// messages, which nothing in the library uses, are gone.
func v1Measured() eng.Phase {
	return eng.Phase{Name: "version 1 messages", Bound: "nothing: there are no helpers that measure them", Body: func(c *eng.Ctx) {}}
}
