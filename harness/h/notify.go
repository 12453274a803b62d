package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

// mirror is an adapter that rebuilds the features of one object from the
// notifications it receives, at the time it receives them.
type mirror struct {
	ecore.AbstractEAdapter
	obj  ecore.EObject
	fs   []int
	st   map[int][]any // feature -> elements (single-valued: zero or one)
	seen int
}

func newMirror(o ecore.EObject, fs []int) *mirror {
	m := &mirror{obj: o, fs: fs, st: map[int][]any{}}
	for _, f := range fs {
		m.st[f] = readFeature(o, f)
	}
	o.EAdapters().Add(m)
	return m
}

func readFeature(o ecore.EObject, f int) []any {
	v := o.EGet(mm.ft(f))
	if mm.f[f].many {
		return viewS(v.(ecore.EList))
	}
	if v == nil {
		return nil
	}
	return []any{v}
}

func (m *mirror) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() == ecore.REMOVING_ADAPTER {
		return
	}
	m.seen++
	nd.Check(n.GetNotifier() == ecore.ENotifier(m.obj), "a notification names the changed object")
	for _, f := range m.fs {
		if n.GetFeature() == mm.ft(f) {
			nd.Check(n.GetFeatureID() == m.obj.EClass().GetFeatureID(mm.ft(f)), "a notification names the id of the changed feature")
			m.apply(f, n)
			return
		}
	}
}

func (m *mirror) apply(f int, n ecore.ENotification) {
	cur := m.st[f]
	if !mm.f[f].many {
		switch n.GetEventType() {
		case ecore.SET, ecore.UNSET, ecore.RESOLVE:
			var old any
			if len(cur) == 1 {
				old = cur[0]
			}
			nd.Check(n.GetOldValue() == old, "a set notification carries the previous value")
			m.st[f] = nil
			if v := n.GetNewValue(); v != nil {
				m.st[f] = []any{v}
			}
		default:
			nd.Check(false, "a single-valued feature is only set or unset")
		}
		return
	}
	m.st[f] = applyList(cur, n)
}

// applyList replays one list notification.
func applyList(cur []any, n ecore.ENotification) []any {
	p := n.GetPosition()
	switch n.GetEventType() {
	case ecore.ADD:
		nd.Check(p >= 0 && p <= len(cur), "an add notification carries a position inside the list")
		return insertS(cur, p, n.GetNewValue())
	case ecore.ADD_MANY:
		nd.Check(p >= 0 && p <= len(cur), "an add-many notification carries a position inside the list")
		return insertS(cur, p, n.GetNewValue().([]any)...)
	case ecore.REMOVE:
		nd.Check(p >= 0 && p < len(cur), "a remove notification carries the position of the removed element")
		nd.Check(cur[p] == n.GetOldValue(), "a remove notification carries the removed element")
		return removeS(cur, p)
	case ecore.REMOVE_MANY:
		olds := n.GetOldValue().([]any)
		if n.GetNewValue() == nil {
			nd.Check(sameSlice(cur, olds), "a clear notification carries the whole content")
			return nil
		}
		ps := n.GetNewValue().([]any)
		nd.Check(len(ps) == len(olds), "a remove-many notification carries one position per element")
		out := cloneS(cur)
		for i := len(ps) - 1; i >= 0; i-- {
			q := ps[i].(int)
			nd.Check(q >= 0 && q < len(out) && (i == 0 || ps[i-1].(int) < q), "remove-many positions are increasing and inside the list")
			nd.Check(out[q] == olds[i], "a remove-many notification pairs elements and positions")
			out = removeS(out, q)
		}
		return out
	case ecore.SET, ecore.RESOLVE:
		nd.Check(p >= 0 && p < len(cur), "a list set notification carries a position inside the list")
		nd.Check(cur[p] == n.GetOldValue(), "a list set notification carries the replaced element")
		out := cloneS(cur)
		out[p] = n.GetNewValue()
		return out
	case ecore.MOVE:
		from := n.GetOldValue().(int)
		nd.Check(from >= 0 && from < len(cur) && p >= 0 && p < len(cur), "a move notification carries positions inside the list")
		nd.Check(cur[from] == n.GetNewValue(), "a move notification carries the moved element")
		return moveS(cur, from, p)
	}
	nd.Check(false, "a list feature sends list notifications")
	return cur
}

func (m *mirror) check() {
	for _, f := range m.fs {
		nd.Check(sameSlice(m.st[f], readFeature(m.obj, f)), "replaying the notifications of feature "+mm.f[f].name+" rebuilds its value")
	}
}

func init() {
	All["H_NotifyContain"] = entry{Setup_NotifyContain, H_NotifyContain}
	All["H_NotifyCross"] = entry{Setup_NotifyCross, H_NotifyCross}
	All["H_NotifyTags"] = entry{Setup_NotifyTags, H_NotifyTags}
	All["H_NotifyAttr"] = entry{Setup_NotifyAttr, H_NotifyAttr}
	All["H_Callbacks"] = entry{nil, H_Callbacks}
	All["H_NotifyAdapters"] = entry{Setup_NotifyAdapters, H_NotifyAdapters}
}

func Setup_NotifyContain()  { mm = buildMMFirst(fKids) }
func Setup_NotifyCross()    { mm = buildMMFirst(fRef) }
func Setup_NotifyTags()     { mm = buildMM(false, false) }
func Setup_NotifyAttr()     { mm = buildMM(false, false) }
func Setup_NotifyAdapters() { mm = buildMM(false, false) }

func notifyCase(all, fs []int) {
	k := nd.Param("objs")
	g := newG(k)
	objs := newObjs(k)
	var ms []*mirror
	late := intn("late", 2) // attach the adapters before or after the first operation
	attach := func() {
		for _, o := range objs {
			ms = append(ms, newMirror(o, all))
		}
	}
	if late == 0 {
		attach()
	}
	for s := 0; s < nd.Param("steps"); s++ {
		f := fs[intn("f", len(fs))]
		graphStep(g, objs, f)
		if late == 1 && s == 0 {
			attach()
		}
		nd.Reach("step")
	}
	for _, m := range ms {
		m.check()
	}
}

func H_NotifyContain() {
	fs := []int{fChild, fChildren, fParent, fKids, fOnly, fHolder}
	notifyCase(fs, fs)
}
func H_NotifyCross() {
	fs := []int{fRef, fRefs, fNext, fPrev, fOwner, fThings, fLinks, fLinkedBy}
	notifyCase(fs, group(fs))
}

// H_NotifyTags: list of data values, with and without duplicates.
func H_NotifyTags() {
	f := []int{fTags, fUTags}[intn("f", 2)]
	unique := mm.f[f].uniq
	ref := intContent(unique)
	o := mm.new()
	l := mm.list(o, f)
	for _, x := range ref {
		l.Add(x)
	}
	m := newMirror(o, []int{f})
	listCase(l, ref, unique, nd.Param("steps"), intElem, mkSpare, "data list")
	m.check()
}

// H_NotifyAttr: single-valued attributes.
func H_NotifyAttr() {
	o := mm.new()
	m := newMirror(o, []int{fID, fName, fCount})
	for s := 0; s < nd.Param("steps"); s++ {
		switch intn("op", 4) {
		case 0:
			o.ESet(mm.ft(fCount), nd.Int("v", -2, 2))
		case 1:
			o.EUnset(mm.ft(fCount))
		case 2:
			o.ESet(mm.ft(fName), nd.Str("s", intn("n", 3), "ab"))
		case 3:
			o.EUnset(mm.ft(fName))
		}
		nd.Check(m.seen == s+1, "every set or unset of an attribute notifies once")
		m.check()
		nd.Reach("step")
	}
}

type recorder struct {
	ecore.AbstractEAdapter
	id  int
	log *[]any
}

func (r *recorder) NotifyChanged(n ecore.ENotification) {
	*r.log = append(*r.log, r.id, n.GetEventType(), n.GetFeature())
}

// H_NotifyAdapters: delivery to the attached adapters.
func H_NotifyAdapters() {
	o := mm.new()
	var log []any
	rs := []*recorder{{id: 0, log: &log}, {id: 1, log: &log}, {id: 2, log: &log}}
	var attached []int
	deliver := true
	ft := mm.ft(fCount)
	for s := 0; s < nd.Param("steps"); s++ {
		log = nil
		switch intn("op", 7) {
		case 5:
			o.EAdapters().Clear()
			want := []any{}
			for _, i := range attached {
				nd.Check(rs[i].GetTarget() == nil, "a detached adapter has no target")
				if deliver {
					want = append(want, i, ecore.REMOVING_ADAPTER, ecore.EStructuralFeature(nil))
				}
			}
			nd.Check(sameSlice(log, want), "every cleared adapter is told")
			attached = nil
		case 6:
			nd.Assume(len(attached) > 0)
			at, i := intn("at", len(attached)), intn("i", 3)
			nd.Assume(idxI(attached, i) < 0)
			old := attached[at]
			o.EAdapters().Set(at, rs[i])
			nd.Check(rs[old].GetTarget() == nil && rs[i].GetTarget() == ecore.ENotifier(o), "replacing an adapter moves the target")
			attached = append([]int{}, attached...)
			attached[at] = i
		case 0:
			i := intn("i", 3)
			nd.Assume(idxI(attached, i) < 0)
			o.EAdapters().Add(rs[i])
			attached = append(append([]int{}, attached...), i)
			nd.Check(rs[i].GetTarget() == ecore.ENotifier(o), "an attached adapter has the object as target")
			nd.Check(len(log) == 0, "attaching notifies nobody")
		case 1:
			i := intn("i", 3)
			r := o.EAdapters().Remove(rs[i])
			nd.Check(r == (idxI(attached, i) >= 0), "removing an adapter reports whether it was attached")
			if r {
				nd.Check(rs[i].GetTarget() == nil, "a detached adapter has no target")
				if deliver {
					nd.Check(sameSlice(log, []any{i, ecore.REMOVING_ADAPTER, ecore.EStructuralFeature(nil)}), "a removed adapter is told")
				}
			}
			attached = delI(attached, i)
		case 2:
			deliver = intn("d", 2) == 1
			o.ESetDeliver(deliver)
			nd.Check(o.EDeliver() == deliver, "the delivery flag is kept")
		case 3, 4:
			f := ft
			if intn("list", 2) == 0 {
				o.ESet(ft, nd.Int("v", 0, 9))
			} else {
				f = mm.ft(fTags)
				mm.list(o, fTags).Add("x")
			}
			want := []any{}
			if deliver {
				for _, i := range attached {
					ev := ecore.SET
					if f != ft {
						ev = ecore.ADD
					}
					want = append(want, i, ev, f)
				}
			}
			nd.Check(sameSlice(log, want), "a change notifies every attached adapter once, in order, and nobody when delivery is off")
			nd.Reach("change")
		}
		nd.Check(o.EAdapters().Size() == len(attached), "the attached adapters are listed")
	}
}

// watchedList rebuilds its content from its own change callbacks.
type watchedList struct {
	ecore.BasicEList
	st []any
}

type watchedNotifyingList struct {
	ecore.BasicENotifyingList
	st []any
}

func wAdd(st []any, i int, x any) []any {
	nd.Check(i >= 0 && i <= len(st), "the callback of an addition carries a position inside the list")
	return insertS(st, i, x)
}

func wSet(st []any, i int, x, old any) []any {
	nd.Check(i >= 0 && i < len(st) && st[i] == old, "the callback of a replacement carries the replaced element and its position")
	out := cloneS(st)
	out[i] = x
	return out
}

func wRemove(st []any, i int, old any) []any {
	nd.Check(i >= 0 && i < len(st) && st[i] == old, "the callback of a removal carries the removed element and its position")
	return removeS(st, i)
}

func wMove(st []any, to int, x any, from int) []any {
	nd.Check(from >= 0 && from < len(st) && to >= 0 && to < len(st) && st[from] == x, "the callback of a move carries the moved element and its positions")
	return moveS(st, from, to)
}

func wClear(st []any, old []any) []any {
	nd.Check(sameSlice(st, old), "the callback of a clear carries the content")
	return nil
}

func (l *watchedList) DidAdd(i int, x any)          { l.st = wAdd(l.st, i, x) }
func (l *watchedList) DidSet(i int, x, old any)     { l.st = wSet(l.st, i, x, old) }
func (l *watchedList) DidRemove(i int, old any)     { l.st = wRemove(l.st, i, old) }
func (l *watchedList) DidMove(i int, x any, j int)  { l.st = wMove(l.st, i, x, j) }
func (l *watchedList) DidClear(old []any)           { l.st = wClear(l.st, old) }
func (l *watchedNotifyingList) DidAdd(i int, x any) { l.st = wAdd(l.st, i, x) }
func (l *watchedNotifyingList) DidSet(i int, x, old any) {
	l.st = wSet(l.st, i, x, old)
}
func (l *watchedNotifyingList) DidRemove(i int, old any) { l.st = wRemove(l.st, i, old) }
func (l *watchedNotifyingList) DidMove(i int, x any, j int) {
	l.st = wMove(l.st, i, x, j)
}
func (l *watchedNotifyingList) DidClear(old []any) { l.st = wClear(l.st, old) }

// H_Callbacks: the change callbacks of a list type built on the library's lists.
func H_Callbacks() {
	ref := intContent(false)
	var l ecore.EList
	var st *[]any
	if intn("kind", 2) == 0 {
		w := &watchedList{}
		w.SetInterfaces(w)
		l, st = w, &w.st
	} else {
		w := &watchedNotifyingList{}
		w.SetInterfaces(w)
		l, st = w, &w.st
	}
	for _, x := range ref {
		l.Add(x)
	}
	listCase(l, ref, false, nd.Param("steps"), intElem, mkSpare, "watched list")
	nd.Check(sameSlice(*st, viewS(l)), "replaying the callbacks of a list rebuilds its content")
}
