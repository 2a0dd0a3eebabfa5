// Package core holds the harnesses: each states one property over the exported
// API of scte35 with arbitrary (symbolic) inputs.
package core

// Registry maps harness names to functions; the engine looks the function of
// the same name up in the SSA form.
var Registry = map[string]func(){}
