package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// try runs f and reports whether it panicked.
func try(f func()) (p bool) {
	p = true
	defer func() {
		if p {
			recover()
		}
	}()
	f()
	p = false
	return
}

func intn(name string, n int) int { return nd.Conc(nd.Int(name, 0, n-1)) }

func sameSlice(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	return ok
}

func has(l []any, x any) bool {
	r := false
	for _, e := range l {
		r = nd.Or(r, e == x)
	}
	return r
}

func indexOf(l []any, x any) int {
	for i, e := range l {
		if e == x {
			return i
		}
	}
	return -1
}

func cloneS(l []any) []any { return append([]any{}, l...) }

func insertS(l []any, i int, x ...any) []any {
	r := append([]any{}, l[:i]...)
	r = append(r, x...)
	return append(r, l[i:]...)
}

func removeS(l []any, i int) []any {
	r := append([]any{}, l[:i]...)
	return append(r, l[i+1:]...)
}

func moveS(l []any, from, to int) []any {
	x := l[from]
	return insertS(removeS(l, from), to, x)
}

func iterS(it ecore.EIterator) []any {
	r := []any{}
	for it.HasNext() {
		r = append(r, it.Next())
	}
	return r
}

func seqS(c ecore.Collection) []any {
	r := []any{}
	for x := range c.All() {
		r = append(r, x)
	}
	return r
}

// viewS reads a list through Size/Get.
func viewS(l ecore.EList) []any {
	r := []any{}
	for i := 0; i < l.Size(); i++ {
		r = append(r, l.Get(i))
	}
	return r
}

// checkViews asserts that every read access to l shows exactly ref.
func checkViews(l ecore.EList, ref []any, what string) {
	nd.Check(l.Size() == len(ref), what+": size")
	nd.Check(sameSlice(viewS(l), ref), what+": content by index")
	nd.Check(sameSlice(l.ToArray(), ref), what+": content as array")
	nd.Check(sameSlice(iterS(l.Iterator()), ref), what+": content by iterator")
	nd.Check(sameSlice(seqS(l), ref), what+": content by sequence")
	nd.Check(l.Empty() == (len(ref) == 0), what+": emptiness")
}

func dedupS(c []any) []any {
	r := []any{}
	for _, x := range c {
		if indexOf(r, x) < 0 {
			r = append(r, x)
		}
	}
	return r
}
