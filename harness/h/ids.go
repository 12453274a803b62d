package h

import (
	"errors"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_IDs"] = entry{Setup_IDs, H_IDs}
	All["H_IDsResource"] = entry{Setup_IDsResource, H_IDsResource}
	All["H_IDsAttribute"] = entry{Setup_IDsAttribute, H_IDsAttribute}
	All["H_IDForms"] = entry{Setup_IDForms, H_IDForms}
}

func Setup_IDs()          { mm = buildMM(false, false) }
func Setup_IDsResource()  { mm = buildMM(false, false) }
func Setup_IDsAttribute() { mm = buildMM(false, false) }
func Setup_IDForms()      { mm = buildMM(false, false) }

// uniqueManager is a manager that gives an id to every object.
func uniqueManager(kind int) ecore.EObjectIDManager {
	if kind == 0 {
		return ecore.NewIncrementalIDManager()
	}
	// ids that are small texts
	n := 0
	return ecore.NewUniqueIDManager(
		func() string {
			n++
			return "n" + string([]byte{byte('0' + n)})
		},
		func(s string) bool { return s != "" },
		func(a any) (string, error) {
			if a == nil {
				return "", nil
			}
			if s, ok := a.(string); ok {
				return s, nil
			}
			return "", errors.New("not an id")
		},
		func(string) {})
}

// idBook is what is known of the ids of some objects.
type idBook struct {
	m    ecore.EObjectIDManager
	objs []ecore.EObject
	id   []any // id of a registered object
	old  []any // id of an object that left
	seen []any // every id an object ever had
}

func (b *idBook) check() {
	ids := []any{}
	for i, o := range b.objs {
		id := b.m.GetID(o)
		nd.Check(id == b.id[i], "an object keeps its id as long as it is registered")
		if id != nil {
			nd.Check(indexOf(ids, id) < 0, "different objects have different ids")
			ids = append(ids, id)
			nd.Check(b.m.GetEObject(id) == o, "the id of an object finds it")
		}
	}
	for _, id := range b.seen {
		o := b.m.GetEObject(id)
		nd.Check((o != nil) == (indexOf(ids, id) >= 0), "an id finds an object as long as the object is registered")
	}
}

// entered: object i is registered.
func (b *idBook) entered(i int) {
	id := b.m.GetID(b.objs[i])
	if b.id[i] != nil {
		nd.Check(id == b.id[i], "registering an object again keeps its id")
		return
	}
	nd.Check(id != nil, "a registered object has an id")
	if b.old[i] != nil && indexOf(b.id, b.old[i]) < 0 {
		nd.Check(id == b.old[i], "an object that comes back has its id again")
	} else {
		nd.Check(indexOf(b.id, id) < 0 && indexOf(b.old, id) < 0, "a new id is not the id of another object")
	}
	b.id[i], b.old[i] = id, nil
	b.seen = append(b.seen, id)
}

// left: object i is not registered any more.
func (b *idBook) left(i int) {
	if b.id[i] != nil {
		nd.Check(b.m.GetDetachedID(b.objs[i]) == b.id[i], "the id of an object that left is remembered")
		b.old[i] = b.id[i]
	}
	b.id[i] = nil
}

// H_IDs: ids and objects correspond one to one.
func H_IDs() {
	kind := intn("manager", 2)
	b := &idBook{m: uniqueManager(kind)}
	for i := 0; i < nd.Param("objs"); i++ {
		b.objs = append(b.objs, mm.new())
		b.id = append(b.id, nil)
		b.old = append(b.old, nil)
	}
	forms := []any{"0", "1", "2"}
	vals := []any{int64(0), int64(1), int64(2)}
	if kind == 1 {
		forms, vals = []any{"x", "y", "z"}, []any{"x", "y", "z"}
	}
	b.seen = append(b.seen, vals...)
	used := 0
	for s := 0; s < nd.Param("steps"); s++ {
		m := used + 1
		if m > len(b.objs) {
			m = len(b.objs)
		}
		i := intn("o", m)
		if i == used {
			used++
		}
		o := b.objs[i]
		switch intn("op", 5) {
		case 0:
			b.m.Register(o)
			b.entered(i)
		case 1:
			b.m.UnRegister(o)
			b.left(i)
		case 2:
			v := intn("v", len(forms))
			nd.Check(b.m.SetID(o, forms[v]) == nil, "a valid id can be set")
			nd.Check(b.m.GetID(o) == vals[v], "an object has the id it is given")
			for j := range b.id {
				if b.id[j] == vals[v] {
					b.id[j] = nil
				}
			}
			b.id[i], b.old[i] = vals[v], nil
		case 3:
			nd.Check(b.m.SetID(o, []int{1}) != nil, "something else is no id")
			nd.Check(b.m.GetEObject([]int{1}) == nil, "something else finds nothing")
		case 4:
			b.m.Clear()
			for j := range b.id {
				b.id[j], b.old[j] = nil, nil
			}
		}
		b.check()
	}
	nd.Reach("end")
}

// H_IDsResource: the objects of a resource have ids, the same when they come back.
func H_IDsResource() {
	k := nd.Param("objs")
	fs := []int{fChild, fChildren, fKids}
	f := fs[intn("in", len(fs))]
	g, objs := spineForest(k, f)
	roots := g.roots[0]
	g.roots = [][]int{nil}
	r := ecore.NewEResourceImpl()
	b := &idBook{m: uniqueManager(0), objs: objs, id: make([]any, k), old: make([]any, k)}
	r.SetObjectIDManager(b.m)
	res := []ecore.EResource{r}
	look := func() {
		for i := range objs {
			if g.resource(i) < 0 {
				b.left(i)
			}
		}
		for i := range objs {
			if g.resource(i) == 0 {
				b.entered(i)
			}
		}
		b.check()
	}
	for _, x := range roots {
		if intn("in resource", 2) == 0 {
			r.GetContents().Add(objs[x])
			g.roots[0] = append(g.roots[0], x)
		}
	}
	look()
	for s := 0; s < nd.Param("steps"); s++ {
		if intn("kind", 2) == 0 {
			resStep(g, objs, res)
		} else {
			graphStep(g, objs, []int{f, fParent}[intn("f", 2)])
		}
		look()
	}
	nd.Reach("end")
}

// H_IDsAttribute: ids that are attributes.
func H_IDsAttribute() {
	m := ecore.NewEObjectIDManagerImpl()
	var objs []ecore.EObject
	var reg []string // id when registered
	for i := 0; i < nd.Param("objs"); i++ {
		objs = append(objs, mm.new())
		reg = append(reg, "")
	}
	ids := []string{"a", "b"}
	for s := 0; s < nd.Param("steps"); s++ {
		i := intn("o", len(objs))
		o := objs[i]
		own := func(id string) {
			for j := range reg {
				if reg[j] == id {
					reg[j] = ""
				}
			}
			reg[i] = id
		}
		switch intn("op", 6) {
		case 0:
			m.Register(o)
			if id := o.EGet(mm.ft(fID)).(string); id != "" {
				own(id)
			}
		case 1:
			m.UnRegister(o)
			reg[i] = ""
		case 2:
			id := ids[intn("id", 2)]
			nd.Check(m.SetID(o, id) == nil, "an attribute id can be set")
			nd.Check(o.EGet(mm.ft(fID)) == id, "setting the id sets the id attribute")
			own(id)
		case 3:
			nd.Check(m.SetID(o, nil) == nil, "an attribute id can be removed")
			nd.Check(o.EGet(mm.ft(fID)) == "", "removing the id empties the id attribute")
			reg[i] = ""
		case 4:
			o.ESet(mm.ft(fID), ids[intn("id", 2)])
		case 5:
			m.Clear()
			for j := range reg {
				reg[j] = ""
			}
		}
		for j, o := range objs {
			if reg[j] == "" {
				nd.Check(m.GetID(o) == nil, "an object without id has none")
			} else {
				nd.Check(m.GetID(o) == any(reg[j]), "an object has the id it was registered with")
			}
		}
		for _, id := range ids {
			j := 0
			for j < len(reg) && reg[j] != id {
				j++
			}
			if j < len(reg) {
				nd.Check(m.GetEObject(id) == objs[j], "the id of an object finds it")
			} else {
				nd.Check(m.GetEObject(id) == nil, "an id that no object has finds nothing")
			}
		}
	}
	nd.Reach("end")
}

// H_IDForms: the forms an id is given in.
func H_IDForms() {
	m := ecore.NewIncrementalIDManager()
	o, p := mm.new(), mm.new()
	n := nd.Int("n", 0, 99)
	var form any
	switch intn("form", 11) {
	case 0:
		form = int(n)
	case 1:
		form = int8(n)
	case 2:
		form = int16(n)
	case 3:
		form = int32(n)
	case 4:
		form = int64(n)
	case 5:
		form = uint(n)
	case 6:
		form = uint8(n)
	case 7:
		form = uint16(n)
	case 8:
		form = uint32(n)
	case 9:
		form = uint64(n)
	case 10:
		if n >= 10 {
			form = string([]byte{byte('0' + n/10), byte('0' + n%10)})
		} else {
			form = string([]byte{byte('0' + n)})
		}
	}
	first := intn("first", 2) == 1
	if first {
		m.Register(p)
		nd.Assume(m.GetID(p) != any(int64(n)))
	}
	nd.Check(m.SetID(o, form) == nil, "every form of a number is an id")
	nd.Check(m.GetID(o) == any(int64(n)), "an id is the number it is given as")
	nd.Check(m.GetEObject(form) == o, "an id finds its object in every form")
	nd.Check(m.GetEObject(int64(n)) == o, "an id finds its object as a number")
	q := mm.new()
	m.Register(q)
	nd.Check(m.GetID(q).(int64) > int64(n), "a new id comes after those given")
	if !first {
		m.Register(p)
		nd.Check(m.GetID(p) != m.GetID(q) && m.GetID(p) != m.GetID(o), "different objects have different ids")
	}
	nd.Check(m.SetID(o, nil) == nil && m.GetID(o) == nil && m.GetEObject(form) == nil, "an id can be removed")
	nd.Reach("end")
}
