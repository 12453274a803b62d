package h

import (
	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_Chain"] = entry{Setup_Chain, H_Chain}
	All["H_ChainRemove"] = entry{Setup_ChainRemove, H_ChainRemove}
}

func Setup_ChainRemove() { mm = buildMM(false, false) }
func Setup_Chain()       { mm = buildMM(false, false) }

// follower replays the notifications of some features of an object; the values
// of the features are kept here, not in the object.
type follower struct {
	ecore.AbstractEAdapter
	st    map[int][]any
	count int
}

func (m *follower) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() == ecore.REMOVING_ADAPTER {
		return
	}
	m.count++
	for f := range m.st {
		if n.GetFeature() != mm.ft(f) {
			continue
		}
		if mm.f[f].many {
			m.st[f] = applyList(m.st[f], n)
			continue
		}
		nd.Check(n.GetEventType() == ecore.SET || n.GetEventType() == ecore.UNSET, "a single-valued feature is only set or unset")
		nd.Check(n.GetOldValue() == m.st[f][0], "a merged set notification carries the first value")
		m.st[f] = []any{n.GetNewValue()}
	}
}

// chainMaker returns the notifications in a chain, or behind the first of them.
type chainMaker struct {
	chain ecore.ENotificationChain
	first bool
}

func (c *chainMaker) add(n ecore.ENotification) {
	switch {
	case c.chain != nil:
		c.chain.Add(n)
	case c.first:
		c.chain = n.(ecore.ENotificationChain)
	default:
		c.chain = ecore.NewNotificationChain()
		c.chain.Add(n)
	}
}

// H_Chain: a chain of notifications describes the changes it was made of.
func H_Chain() {
	objs := []ecore.EObject{mm.new(), mm.new()}
	many := []int{fTags, fRefs}
	single := []int{fName, fCount}
	st := [2]map[int][]any{}
	ms := [2]*follower{}
	next := 10
	for i := range objs {
		st[i] = map[int][]any{}
		ms[i] = &follower{st: map[int][]any{}}
		for j, f := range many {
			for k := 0; k < nd.Param("size"); k++ {
				st[i][f] = append(st[i][f], next+j)
				next++
			}
			ms[i].st[f] = cloneS(st[i][f])
		}
		for _, f := range single {
			st[i][f] = []any{next}
			ms[i].st[f] = cloneS(st[i][f])
			next++
		}
		objs[i].EAdapters().Add(ms[i])
	}
	c := &chainMaker{first: intn("first", 2) == 1}
	usedObj, usedMany, usedSingle := 0, 0, 0
	sym := func(name string, used *int, n int) int {
		// features and objects are interchangeable
		m := *used + 1
		if m > n {
			m = n
		}
		i := intn(name, m)
		if i == *used {
			*used++
		}
		return i
	}
	changes := 0
	for s := 0; s < nd.Param("steps"); s++ {
		oi := sym("obj", &usedObj, 2)
		o := objs[oi]
		byID := intn("id", 1+nd.Param("ids")) == 1
		send := func(t ecore.EventType, f int, old, new any, pos int) {
			changes++
			if byID {
				c.add(ecore.NewNotificationByFeatureID(o, t, o.EClass().GetFeatureID(mm.ft(f)), old, new, pos))
			} else {
				c.add(ecore.NewNotificationByFeature(o, t, mm.ft(f), old, new, pos))
			}
		}
		v := any(next)
		next++
		op := intn("op", 8)
		if op < 2 {
			f := single[sym("single", &usedSingle, nd.Param("feats"))]
			old := st[oi][f][0]
			st[oi][f] = []any{v}
			if op == 0 {
				send(ecore.SET, f, old, v, ecore.NO_INDEX)
			} else {
				send(ecore.UNSET, f, old, v, ecore.NO_INDEX)
			}
			continue
		}
		f := many[sym("many", &usedMany, nd.Param("feats"))]
		l := st[oi][f]
		n := len(l)
		switch op {
		case 2:
			i := intn("i", n+1)
			st[oi][f] = insertS(l, i, v)
			send(ecore.ADD, f, nil, v, i)
		case 3:
			nd.Assume(n > 0)
			i := intn("i", n)
			st[oi][f] = removeS(l, i)
			send(ecore.REMOVE, f, l[i], nil, i)
		case 4:
			nd.Assume(n > 1)
			i := intn("i", n-1)
			j := i + 1 + intn("j", n-1-i)
			st[oi][f] = removeS(removeS(l, j), i)
			send(ecore.REMOVE_MANY, f, []any{l[i], l[j]}, []any{i, j}, i)
		case 5:
			nd.Assume(n > 0)
			i := intn("i", n)
			st[oi][f] = cloneS(l)
			st[oi][f][i] = v
			send(ecore.SET, f, l[i], v, i)
		case 6:
			nd.Assume(n > 1)
			st[oi][f] = moveS(l, 0, n-1)
			send(ecore.MOVE, f, 0, l[0], n-1)
		case 7:
			i := intn("i", n+1)
			w := []any{v, next}
			next++
			st[oi][f] = insertS(l, i, w...)
			send(ecore.ADD_MANY, f, nil, w, i)
		}
	}
	c.chain.Dispatch()
	nd.Check(ms[0].count+ms[1].count <= changes, "a chain tells no more changes than were made")
	for i := range objs {
		for f, want := range st[i] {
			nd.Check(sameSlice(ms[i].st[f], want), "a chain of notifications describes the changes it was made of")
		}
	}
	nd.Reach("dispatched")
}

// H_ChainRemove: removals one after the other.
func H_ChainRemove() {
	o := mm.new()
	m := &follower{st: map[int][]any{}}
	l := []any{}
	for k := 0; k < nd.Param("size"); k++ {
		l = append(l, k)
	}
	m.st[fTags] = cloneS(l)
	o.EAdapters().Add(m)
	c := &chainMaker{first: intn("first", 2) == 1}
	for s := 0; s < nd.Param("steps"); s++ {
		i := intn("i", len(l))
		c.add(ecore.NewNotificationByFeature(o, ecore.REMOVE, mm.ft(fTags), l[i], nil, i))
		l = removeS(l, i)
	}
	c.chain.Dispatch()
	nd.Check(sameSlice(m.st[fTags], l), "merged removals describe the removals they were made of")
	nd.Check(m.count == 1, "removals from the same list are told at once")
	nd.Reach("removed")
}
