// Package pt is what instrumented sources call at every statement.
package pt

// Hook is set by the explorer.
var Hook func(site int)

// P is a scheduling point.
func P(site int) {
	if Hook != nil {
		Hook(site)
	}
}
