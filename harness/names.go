package notify

// HC21: an arbitrary event set is printed.

type zname struct {
	e    Event
	name string
}

func HC21() {
	known := Event(0)
	names := append([]zname{{Create, "notify.Create"}, {Remove, "notify.Remove"}, {Write, "notify.Write"}, {Rename, "notify.Rename"}}, znames...)
	for i, x := range names {
		known |= x.e
		for _, y := range names[:i] {
			vAssert(x.e != y.e, "C21: two events share a value")
		}
	}
	vMapOrder(vParam("maporder", 0))
	e := Event(vU32("set"))
	free := Event(vParam("free", -1))
	if lo := vParam("lo", -1); lo >= 0 { // the named events from lo to hi are arbitrary, of the others only one is
		free = ^known
		for i, x := range names {
			if i >= lo && i < vParam("hi", 0) {
				free |= x.e
			}
		}
		if one := vChoose("one", len(names)+1); one < len(names) {
			free |= names[one].e
		}
	}
	e &= free &^ internal
	s := e.String()
	var parts []string
	for s != "" {
		i := 0
		for i < len(s) && s[i] != '|' {
			i++
		}
		parts = append(parts, s[:i])
		if i == len(s) {
			break
		}
		s = s[i+1:]
	}
	n := 0
	for _, x := range names {
		k := 0
		for _, p := range parts {
			if p == x.name {
				k++
			}
		}
		n += k
		has := e&x.e == x.e
		vAssert(vImplies(has, k == 1), "C21: an event of the set is not named once")
		vAssert(vImplies(k > 0, has), "C21: an event is named that is not in the set")
	}
	vAssert(n == len(parts), "C21: something else is named")
	vReach("printed")
}
