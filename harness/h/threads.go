package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_ThreadsClass"] = entry{nil, H_ThreadsClass}
}

// tcls are classes A < B < C with features and operations of their own.
type tcls struct {
	c   []ecore.EClass
	f   []ecore.EStructuralFeature
	ops []ecore.EOperation
}

func newTcls() *tcls {
	t := &tcls{}
	fac := ecore.GetFactory()
	p := fac.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://p")
	for i, n := range []string{"A", "B", "C"} {
		c := fac.CreateEClass()
		c.SetName(n)
		if i > 0 {
			c.GetESuperTypes().Add(t.c[i-1])
		}
		a := fac.CreateEAttribute()
		a.SetName("x" + n)
		a.SetEType(ecore.GetPackage().GetEString())
		a.SetID(i == 0)
		r := fac.CreateEReference()
		r.SetName("r" + n)
		r.SetEType(c)
		r.SetContainment(i == 1)
		c.GetEStructuralFeatures().Add(a)
		c.GetEStructuralFeatures().Add(r)
		o := fac.CreateEOperation()
		o.SetName("o")
		c.GetEOperations().Add(o)
		p.GetEClassifiers().Add(c)
		t.c = append(t.c, c)
		t.f = append(t.f, a, r)
		t.ops = append(t.ops, o)
	}
	return t
}

// read makes the read k of class c, and says whether the value is right.
func (t *tcls) read(k, c int) bool {
	e := t.c[c]
	n := 2 * (c + 1)
	switch k {
	case 0:
		return e.GetFeatureCount() == n
	case 1:
		for i := 0; i < n; i++ {
			if e.GetEStructuralFeature(i) != t.f[i] {
				return false
			}
		}
		return e.GetEStructuralFeature(n) == nil
	case 2:
		return e.GetEStructuralFeatureFromName("rA") == t.f[1] && e.GetEStructuralFeatureFromName("q") == nil
	case 3:
		return e.GetEAllAttributes().Size() == c+1 && e.GetEIDAttribute() == t.f[0]
	case 4:
		l := e.GetEAllSuperTypes()
		return l.Size() == c && (c == 0 || l.Get(0) == t.c[0])
	case 5:
		return e.GetEAllReferences().Size() == c+1 && e.GetEAllReferences().Get(c) == t.f[2*c+1]
	case 6:
		m := 0
		if c > 0 {
			m = 1
		}
		return e.GetEAllContainments().Size() == m
	case 7:
		return e.GetOperationCount() == c+1 && e.GetEOperation(c) == t.ops[c]
	case 8:
		o := e.GetOverride(t.ops[0])
		return o == nil && c == 0 || c > 0 && o == t.ops[1]
	case 9:
		return e.GetFeatureID(t.f[n-1]) == n-1
	case 10:
		return t.c[0].IsSuperTypeOf(e) && (c == 0 || !e.IsSuperTypeOf(t.c[0]))
	case 11:
		return e.GetEContainmentFeatures().Size()+e.GetECrossReferenceFeatures().Size() == c+1
	case 12:
		return e.GetEAttributes().Size() == 1 && e.GetEReferences().Size() == 1 && e.GetEAllOperations().Size() == c+1
	default:
		return e.GetEPackage().GetEClassifier([]string{"A", "B", "C"}[c]) == e
	}
}

const nClassReads = 14

// H_ThreadsClass: two threads read classes.
func H_ThreadsClass() {
	t := newTcls()
	var k, c [2]int
	for i := range k {
		k[i] = intn("read", nClassReads)
		c[i] = 2 - intn("class", nd.Param("classes"))
	}
	if intn("warm", 2) == 1 { // something is read before
		nd.Check(t.read(intn("first", nClassReads), c[0]), "a class is read as it is")
	}
	var ok [2]bool
	nd.Par(nd.Param("switches"),
		func() { ok[0] = t.read(k[0], c[0]) },
		func() { ok[1] = t.read(k[1], c[1]) })
	nd.Check(ok[0] && ok[1], "each thread reads the class as it is")
	for i := range k {
		nd.Check(t.read(k[i], c[i]), "a class that was read is as it is")
	}
}
