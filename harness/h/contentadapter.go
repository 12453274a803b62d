package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_ContentAdapter"] = entry{Setup_ContentAdapter, H_ContentAdapter}
	All["H_ContentAdapterCross"] = entry{Setup_ContentAdapterCross, H_ContentAdapterCross}
}

func Setup_ContentAdapter()      { mm = buildMM(false, false) }
func Setup_ContentAdapterCross() { mm = buildMM(false, true) }

// treeWatcher is a content adapter that counts what it is told.
type treeWatcher struct {
	ecore.EContentAdapter
	n map[ecore.ENotifier]int
}

func newTreeWatcher() *treeWatcher {
	w := &treeWatcher{n: map[ecore.ENotifier]int{}}
	w.SetInterfaces(w)
	return w
}

func (w *treeWatcher) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() != ecore.REMOVING_ADAPTER {
		w.n[n.GetNotifier()]++
	}
	w.EContentAdapter.NotifyChanged(n)
}

func contentAdapterCase(cross bool) {
	k := nd.Param("objs")
	fs := []int{fChildren, fChild, fKids, fOnly}
	f := fs[intn("in", nd.Param("features"))]
	g, objs := spineForest(k, f)
	g.cross = cross
	roots := g.roots[0]
	g.roots = [][]int{nil, nil}
	var res []ecore.EResource
	rs := ecore.NewEResourceSetImpl()
	inSet := []bool{true, true}
	for i := 0; i < 2; i++ {
		r := ecore.NewEResourceImpl()
		res = append(res, r)
		rs.GetResources().Add(r)
	}
	for _, x := range roots {
		if r := intn("in resource", 3); r < 2 {
			res[r].GetContents().Add(objs[x])
			g.roots[r] = append(g.roots[r], x)
		}
	}
	if cross {
		// objects inside others may be in a resource of their own
		for i := range objs {
			if c, _ := g.container(i); c >= 0 {
				if r := intn("own resource", 3); r < 2 {
					res[r].GetContents().Add(objs[i])
					g.roots[r] = append(g.roots[r], i)
				}
			}
		}
	}
	// the adapter watches an object, a resource or a resource set
	where := intn("where", 3)
	var a ecore.EAdapter
	var w *treeWatcher
	if intn("plain", 1+nd.Param("plain")) == 0 {
		w = newTreeWatcher()
		a = w
	} else {
		a = ecore.NewEContentAdapter()
	}
	var top ecore.ENotifier
	switch where {
	case 0:
		top = objs[0]
	case 1:
		top = res[0]
	case 2:
		top = rs
	}
	top.EAdapters().Add(a)
	nested := make([]bool, k)
	for s := 0; s < nd.Param("steps"); s++ {
		before := make([]int, k)
		own := make([]int, k)
		ownOf := func(i int) int {
			for r := range g.roots {
				if idxI(g.roots[r], i) >= 0 {
					return r
				}
			}
			return -1
		}
		for i := range objs {
			before[i], _ = g.container(i)
			own[i] = ownOf(i)
		}
		switch intn("kind", 3) {
		case 0:
			resStep(g, objs, res)
		case 1:
			sf := []int{f, fParent, fHolder, fChild}[intn("f", 4)]
			graphStep(g, objs, sf)
		case 2:
			nd.Assume(where == 2)
			i := intn("r", 2)
			if inSet[i] {
				rs.GetResources().Remove(res[i])
			} else {
				rs.GetResources().Add(res[i])
			}
			inSet[i] = !inSet[i]
		}
		for i := range objs {
			// left an object that left another one at the same time
			if c, _ := g.container(i); c != before[i] {
				for b := before[i]; b >= 0; b = before[b] {
					if c, _ := g.container(b); c != before[b] || ownOf(b) != own[b] {
						nested[i] = true
					}
				}
			}
		}
	}
	count := func(n ecore.ENotifier) int {
		c := 0
		for _, x := range viewS(n.EAdapters()) {
			if x == any(a) {
				c++
			}
		}
		return c
	}
	one := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	watched := make([]bool, k)
	for i := range res {
		in := where == 1 && i == 0 || where == 2 && inSet[i]
		nd.Check(count(res[i]) == one(in), "a content adapter watches exactly the resources of what it watches")
	}
	for j, o := range objs {
		in := false
		for b := j; b >= 0 && !in; b, _ = g.container(b) {
			in = where == 0 && b == 0
			for i := range res {
				if idxI(g.roots[i], b) >= 0 && (where == 1 && i == 0 || where == 2 && inSet[i]) {
					in = true
				}
			}
		}
		watched[j] = in
		tainted := false
		for b := j; b >= 0; b, _ = g.container(b) {
			tainted = tainted || nested[b]
		}
		if tainted {
			nd.KnownCheck(count(o) == one(in), "content-adapter-nested-move", "an object moved out of a watched tree together with an object that held it keeps the content adapter")
			continue
		}
		nd.Check(count(o) == one(in), "a content adapter watches exactly the objects inside what it watches")
	}
	for j := range objs {
		if nested[j] {
			nd.Reach("nested")
			return
		}
	}
	if w != nil {
		// it is told once of what happens inside
		for j, o := range objs {
			w.n = map[ecore.ENotifier]int{}
			o.ESet(mm.ft(fName), "x")
			nd.Check(w.n[o] == one(watched[j]) && len(w.n) == one(watched[j]), "a content adapter is told once of each change inside what it watches")
		}
	}
	// and goes away at once
	top.EAdapters().Remove(a)
	for _, o := range objs {
		nd.Check(count(o) == 0, "a content adapter that is removed leaves all contents")
	}
	for i := range res {
		nd.Check(count(res[i]) == 0, "a content adapter that is removed leaves all resources")
	}
	nd.Reach("end")
}

// H_ContentAdapter: a content adapter follows the tree it watches.
func H_ContentAdapter() { contentAdapterCase(false) }

// H_ContentAdapterCross: the same with trees that cross resources.
func H_ContentAdapterCross() { contentAdapterCase(true) }
