// Package h holds the harnesses. H_X is an entry point, Setup_X (optional) runs
// once, concretely, before it. All is used by the native replay binary.
package h

type entry struct{ Setup, Run func() }

var All = map[string]entry{}
