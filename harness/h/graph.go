package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// gstate is the reference model of a graph of objects of class N.
type gstate struct {
	k     int
	nu    int       // objects touched so far
	roots [][]int   // resource -> objects directly in it
	cross bool      // containment may cross resources
	st    [][][]int // object, feature -> ordered targets
}

func newG(k int) *gstate {
	g := &gstate{k: k}
	for i := 0; i < k; i++ {
		g.st = append(g.st, make([][]int, fMax))
	}
	return g
}

func idxI(l []int, x int) int {
	for i, e := range l {
		if e == x {
			return i
		}
	}
	return -1
}

func delI(l []int, x int) []int {
	i := idxI(l, x)
	if i < 0 {
		return l
	}
	r := append([]int{}, l[:i]...)
	return append(r, l[i+1:]...)
}

func insI(l []int, i int, x int) []int {
	r := append([]int{}, l[:i]...)
	r = append(r, x)
	return append(r, l[i:]...)
}

func isContainer(f int) bool { o := mm.f[f].opp; return o >= 0 && mm.f[o].cont }

func (g *gstate) unlink(a, f, b int) {
	g.st[a][f] = delI(g.st[a][f], b)
	if o := mm.f[f].opp; o >= 0 {
		g.st[b][o] = delI(g.st[b][o], a)
	}
}

func (g *gstate) uncontain(b int) {
	for c := 0; c < g.k; c++ {
		for _, f := range mm.order() {
			if mm.f[f].cont && idxI(g.st[c][f], b) >= 0 {
				g.unlink(c, f, b)
			}
		}
	}
}

func (g *gstate) unroot(b int) {
	for r := range g.roots {
		g.roots[r] = delI(g.roots[r], b)
	}
}

// link makes b a target of a.f at position at (-1: at the end).
func (g *gstate) link(a, f, b, at int) {
	o := mm.f[f].opp
	if !mm.f[f].many {
		for _, x := range append([]int{}, g.st[a][f]...) {
			g.unlink(a, f, x)
		}
	}
	if o >= 0 && !mm.f[o].many {
		for _, x := range append([]int{}, g.st[b][o]...) {
			g.unlink(b, o, x)
		}
	}
	if mm.f[f].cont {
		g.uncontain(b)
		if !g.cross {
			g.unroot(b)
		}
	}
	if isContainer(f) {
		g.uncontain(a)
		if !g.cross {
			g.unroot(a)
		}
	}
	if at < 0 || at > len(g.st[a][f]) {
		at = len(g.st[a][f])
	}
	g.st[a][f] = insI(g.st[a][f], at, b)
	if o >= 0 {
		g.st[b][o] = append(append([]int{}, g.st[b][o]...), a)
	}
}

func (g *gstate) container(b int) (int, int) {
	for c := 0; c < g.k; c++ {
		for _, f := range mm.order() {
			if mm.f[f].cont && idxI(g.st[c][f], b) >= 0 {
				return c, f
			}
		}
	}
	return -1, -1
}

// within reports whether a is b or inside b.
func (g *gstate) within(a, b int) bool {
	for a >= 0 {
		if a == b {
			return true
		}
		a, _ = g.container(a)
	}
	return false
}

// cyclic reports whether linking b to a.f would close a containment cycle.
func (g *gstate) cyclic(a, f, b int) bool {
	if mm.f[f].cont {
		return g.within(a, b)
	}
	if isContainer(f) {
		return g.within(b, a)
	}
	return false
}

func newObjs(k int) []ecore.EObject {
	var r []ecore.EObject
	for i := 0; i < k; i++ {
		r = append(r, mm.new())
	}
	return r
}

const graphOps = 14

// pick chooses an object. Objects are interchangeable, so the untouched object
// of lowest index stands for all untouched ones.
func (g *gstate) pick(name string) int {
	n := g.nu + 1
	if n > g.k {
		n = g.k
	}
	i := intn(name, n)
	if i == g.nu {
		g.nu++
	}
	return i
}

// drop empties the single-valued feature f of a.
func (g *gstate) drop(a, f int) {
	for _, x := range append([]int{}, g.st[a][f]...) {
		g.unlink(a, f, x)
	}
	if isContainer(f) {
		// as in EMF, clearing a container reference takes the object out of
		// whatever contains it
		g.uncontain(a)
	}
}

// graphStep runs one symbolic operation on feature f of an object.
func graphStep(g *gstate, objs []ecore.EObject, f int) {
	a := g.pick("a")
	d := mm.f[f]
	obj := objs[a]
	target := func(name string) int {
		b := g.pick(name)
		nd.Assume(!g.cyclic(a, f, b))
		return b
	}
	if !d.many {
		switch intn("op", 3) {
		case 0:
			b := target("b")
			obj.ESet(d.f, objs[b])
			if !(len(g.st[a][f]) == 1 && g.st[a][f][0] == b) {
				g.link(a, f, b, -1)
			}
		case 1:
			obj.ESet(d.f, nil)
			g.drop(a, f)
		case 2:
			obj.EUnset(d.f)
			g.drop(a, f)
		}
		return
	}
	l := mm.list(obj, f)
	cur := g.st[a][f]
	n := len(cur)
	switch intn("op", graphOps) {
	case 0:
		b := target("b")
		r := l.Add(objs[b])
		nd.Check(r == (idxI(cur, b) < 0), "add reports whether the object was added")
		if r {
			g.link(a, f, b, -1)
		}
	case 1:
		i := intn("i", n+1)
		b := target("b")
		r := l.Insert(i, objs[b])
		nd.Check(r == (idxI(cur, b) < 0), "insert reports whether the object was added")
		if r {
			g.link(a, f, b, i)
		}
	case 2:
		b := g.pick("b")
		r := l.Remove(objs[b])
		nd.Check(r == (idxI(cur, b) >= 0), "remove reports whether the object was present")
		if r {
			g.unlink(a, f, b)
		}
	case 3:
		nd.Assume(n > 0)
		i := intn("i", n)
		r := l.RemoveAt(i)
		nd.Check(r == any(objs[cur[i]]), "remove returns the removed object")
		g.unlink(a, f, cur[i])
	case 4:
		nd.Assume(n > 0)
		i := intn("i", n)
		b := target("b")
		j := idxI(cur, b)
		nd.Assume(j < 0 || j == i)
		l.Set(i, objs[b])
		if j < 0 {
			g.unlink(a, f, cur[i])
			g.link(a, f, b, i)
		}
	case 5:
		nd.Assume(n > 1)
		i, j := intn("i", n), intn("j", n)
		l.Move(i, j)
		x := cur[i]
		g.st[a][f] = insI(delI(cur, x), j, x)
	case 6:
		l.Clear()
		for _, x := range append([]int{}, cur...) {
			g.unlink(a, f, x)
		}
	case 7:
		b, c := target("b"), target("c")
		l.AddAll(ecore.NewImmutableEList([]any{objs[b], objs[c]}))
		if idxI(cur, b) < 0 {
			g.link(a, f, b, -1)
		}
		if idxI(g.st[a][f], c) < 0 {
			g.link(a, f, c, -1)
		}
	case 8:
		b, c := g.pick("b"), g.pick("c")
		l.RemoveAll(ecore.NewImmutableEList([]any{objs[b], objs[c]}))
		for _, x := range append([]int{}, cur...) {
			if x == b || x == c {
				g.unlink(a, f, x)
			}
		}
	case 9:
		nd.Assume(n > 0)
		i := intn("i", n)
		j := i + intn("len", n-i+1)
		l.RemoveRange(i, j)
		for _, x := range append([]int{}, cur[i:j]...) {
			g.unlink(a, f, x)
		}
	case 10:
		obj.EUnset(d.f)
		for _, x := range append([]int{}, cur...) {
			g.unlink(a, f, x)
		}
	case 11:
		b, c := target("b"), target("c")
		obj.ESet(d.f, ecore.NewImmutableEList([]any{objs[b], objs[c]}))
		for _, x := range append([]int{}, cur...) {
			g.unlink(a, f, x)
		}
		g.link(a, f, b, -1)
		if c != b {
			g.link(a, f, c, -1)
		}
	case 12:
		nd.Assume(n > 1)
		i, j := intn("i", n), intn("j", n)
		x := cur[i]
		l.MoveObject(j, objs[x])
		g.st[a][f] = insI(delI(cur, x), j, x)
	case 13:
		i := intn("i", n+1)
		b, c := target("b"), target("c")
		l.InsertAll(i, ecore.NewImmutableEList([]any{objs[b], objs[c]}))
		if idxI(cur, b) < 0 {
			g.link(a, f, b, i)
			i++
		}
		if idxI(g.st[a][f], c) < 0 {
			g.link(a, f, c, i)
		}
	}
}

func (g *gstate) objsOf(objs []ecore.EObject, l []int) []any {
	r := []any{}
	for _, i := range l {
		r = append(r, objs[i])
	}
	return r
}

// check compares every object with the reference model through the public API.
// fs are the features the operations act on; the others show through the
// contents, the container and the cross references only.
func (g *gstate) check(objs []ecore.EObject, fs []int) {
	for a, o := range objs {
		for _, f := range fs {
			d := mm.f[f]
			want := g.objsOf(objs, g.st[a][f])
			v := o.EGet(d.f)
			if d.many {
				nd.Check(sameSlice(viewS(v.(ecore.EList)), want), "feature "+d.name+" holds the expected objects")
			} else if len(want) == 0 {
				nd.Check(v == nil, "feature "+d.name+" is empty")
				nd.Check(!o.EIsSet(d.f), "empty feature "+d.name+" is not set")
			} else {
				nd.Check(v == want[0], "feature "+d.name+" holds the expected object")
				nd.Check(o.EIsSet(d.f), "feature "+d.name+" is set")
			}
		}
		c, f := g.container(a)
		if c < 0 {
			nd.Check(o.EContainer() == nil, "an object outside every containment has no container")
			nd.Check(o.EContainingFeature() == nil && o.EContainmentFeature() == nil, "an object without container has no containing feature")
		} else {
			nd.Check(o.EContainer() == objs[c], "container of a contained object")
			cf := o.EContainmentFeature()
			if o := mm.f[f].opp; o >= 0 && cf == mm.f[o].f.(ecore.EReference) {
				nd.KnownCheck(false, "containment-feature-bidirectional", "containment feature of an object held by a bidirectional containment")
			} else {
				nd.Check(cf == mm.f[f].f.(ecore.EReference), "containment feature of a contained object")
			}
			nd.Check(o.EContainingFeature() == mm.f[f].f, "containing feature of a contained object")
		}
		var kids, cross []any
		for _, f := range mm.order() {
			d := mm.f[f]
			if d.cont {
				kids = append(kids, g.objsOf(objs, g.st[a][f])...)
			} else if d.attr == "" && !isContainer(f) {
				cross = append(cross, g.objsOf(objs, g.st[a][f])...)
			}
		}
		nd.Check(sameSlice(iterS(o.EContents().Iterator()), kids), "contents lists the contained objects")
		nd.Check(o.EContents().Size() == len(kids), "size of contents")
		nd.Check(sameSlice(iterS(o.ECrossReferences().Iterator()), cross), "cross references lists the referenced objects")
	}
}

func init() {
	All["H_Contain"] = entry{Setup_Contain, H_Contain}
	All["H_ContainDeep"] = entry{Setup_ContainDeep, H_ContainDeep}
	All["H_Cross"] = entry{Setup_Cross, H_Cross}
	All["H_CrossMI"] = entry{Setup_CrossMI, H_CrossMI}
	All["H_KnownMI"] = entry{Setup_KnownMI, H_KnownMI}
}

func Setup_Contain()     { mm = buildMMFirst(fParent) }
func Setup_ContainDeep() { mm = buildMM(false, false) }
func Setup_Cross()       { mm = buildMMFirst(fNext) }
func Setup_CrossMI()     { mm = buildMM(true, false) }
func Setup_KnownMI()     { mm = buildMM(true, false) }

func H_Contain() {
	fs := []int{fChild, fChildren, fParent, fKids, fOnly, fHolder}
	graphCase(fs, fs)
}
func H_Cross() {
	fs := []int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy}
	graphCase(fs, group(fs))
}

// H_CrossMI: in a class with several super types, where the id of a feature
// differs from its position in the declaring class.
func H_CrossMI() {
	fs := []int{fRef, fRefs, fNext, fPrev}
	graphCase(fs, group(fs))
}

// H_KnownMI: containment in such a class does not survive a change of container.
func H_KnownMI() {
	o := newObjs(3)
	f := []int{fChild, fOnly}[intn("f", 2)]
	o[0].ESet(mm.ft(f), o[1])
	nd.Check(o[1].EContainer() == o[0] && o[0].EGet(mm.ft(f)) == o[1], "containment in a class with several super types")
	l := mm.list(o[2], fChildren)
	l.Add(o[1])
	nd.KnownCheck(l.Contains(o[1]) && o[1].EContainer() == o[2] && o[0].EGet(mm.ft(f)) == nil, "multiple-inheritance-containment", "an object moved to another container leaves the first one")
}

// group keeps the features of one relation unless the relations are mixed:
// relations other than containment do not interact.
func group(fs []int) []int {
	if nd.Param("mix") == 1 {
		return fs
	}
	i := 2 * intn("group", len(fs)/2)
	return fs[i : i+2]
}

func graphCase(all []int, fs []int) {
	k := nd.Param("objs")
	g := newG(k)
	objs := newObjs(k)
	for s := 0; s < nd.Param("steps"); s++ {
		f := fs[intn("f", len(fs))]
		graphStep(g, objs, f)
		nd.Reach("step")
	}
	g.check(objs, all)
}

// H_ContainDeep: operations on containment forests of every shape.
func H_ContainDeep() {
	k := nd.Param("objs")
	fs := []int{fChild, fChildren, fParent, fKids, fOnly, fHolder}
	g, objs := someForest(k, treeFs)
	for s := 0; s < nd.Param("steps"); s++ {
		graphStep(g, objs, fs[intn("f", len(fs))])
	}
	g.check(objs, fs)
	nd.Reach("end")
}
