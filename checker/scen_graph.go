package main

import (
	"strconv"
	"strings"
)

// graphSpecs are the shapes of aggregates and edits that are analysed.
func graphSpecs() []*gspec {
	base := func(ops ...gop) []gop { return ops }
	var r []*gspec
	add := func(s *gspec) { r = append(r, s) }
	ev := map[string][]string{"r": {"3"}, "w": {"1"}, "x": {"2"}, "s": {"4"}}
	// ---- C04: detection
	add(&gspec{name: "create-child", ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,w; w.k=x")), dirty: []string{"s", "w"}, events: ev, typeB: []string{"w"}})
	add(&gspec{name: "create-root", ops: base(gr("r.k=w; w.k=x; w.l=y"), op("add", "r")), events: ev, typeB: []string{"w"}})
	add(&gspec{name: "delete-child", ops: base(gr("r.k=s,w"), op("load", "r"), gr("r.k=s")), dirty: []string{"s", "r"}, events: ev})
	add(&gspec{name: "delete-key", ops: base(gr("r.k=w; r.l=s"), op("load", "r"), gr("r.l=s")), events: ev})
	add(&gspec{name: "delete-all", ops: base(gr("r.k=w,s"), op("load", "r"), gr("r.k=")), events: ev})
	add(&gspec{name: "update-deep", ops: base(gr("r.k=c; c.k=w; w.k=x"), op("load", "r")), dirty: []string{"r", "c", "w", "x"}, events: map[string][]string{"w": {"1"}, "c": {"2"}}, typeB: []string{"w", "x"}})
	add(&gspec{name: "create-below-remaining", ops: base(gr("r.k=c; c.k=s"), op("load", "r"), gr("r.k=c; c.k=s,w; w.k=x")), dirty: []string{"c"}, events: ev})
	add(&gspec{name: "delete-below-remaining", ops: base(gr("r.k=c; c.k=s,w"), op("load", "r"), gr("r.k=c; c.k=s")), dirty: []string{"c", "s"}, events: ev})
	add(&gspec{name: "mixed", ops: base(gr("r.k=u,d; r.l=u2"), op("load", "r"), gr("r.k=n,u; r.l=u2,n2")), dirty: []string{"u", "u2"}, typeB: []string{"u2", "n2"}, events: map[string][]string{"u": {"2"}, "d": {"1"}, "n": {"3"}}})
	add(&gspec{name: "two-roots", ops: base(gr("r.k=w; q.k=s"), op("load", "r"), op("load", "q"), gr("q.k=s,n")), dirty: []string{"q"}, events: map[string][]string{"w": {"1"}, "q": {"2"}}})
	add(&gspec{name: "remove-root", ops: base(gr("r.k=w; q.k=s"), op("load", "r", "q"), op("remove", "r")), dirty: []string{"q", "s"}, events: map[string][]string{"w": {"1"}, "q": {"2"}, "r": {"3"}}})
	add(&gspec{name: "remove-unloaded", ops: base(gr("r.k=w"), op("remove", "r")), events: map[string][]string{"r": {"1"}, "w": {"2"}}})
	add(&gspec{name: "not-registered", ops: base(gr("r.k=s,w"), op("load", "r"), gr("r.k=s,n,w; n.k=x")), dirty: []string{"s", "w"}, notReg: []string{"w", "n"}})
	add(&gspec{name: "unregistered-only", ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,n; n.k=x")), notReg: []string{"n", "x"}, events: map[string][]string{"n": {"1"}}})
	add(&gspec{name: "siblings", ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,v,w,x")), noID: []string{"v", "w", "x"}, typeB: []string{"x"}, dirty: []string{"s"}})
	add(&gspec{name: "siblings-dirty", ops: base(gr("r.k=s,t,u; u.k=v"), op("load", "r"), op("dirty", "s", "t", "v"), gr("r.k=u,t,s; u.k=v")), typeB: []string{"v"}})
	add(&gspec{name: "siblings-deleted", ops: base(gr("r.k=s,t,u; u.k=v"), op("load", "r"), gr("r.k=t; u.k=v")), typeB: []string{"u"}, dirty: []string{"r"}})
	// ---- deep and wide aggregates
	chain := "a.k=b; b.k=c; c.k=d; d.k=e; e.k=f; f.k=g"
	for _, rec := range []bool{false, true} {
		n, rule := "", ""
		if rec {
			n, rule = "-recursive", "C19/change"
		}
		add(&gspec{name: "deep-delete" + n, recursive: rec, errRule: rule, ops: base(gr("r.k=a; "+chain), op("load", "r"), gr("r.k=; "+chain)), noID: []string{}, pinID: true})
		add(&gspec{name: "deep-remove" + n, recursive: rec, errRule: rule, ops: base(gr("a.k=b; "+chain), op("load", "a"), op("remove", "a")), noID: []string{}, pinID: true})
	}
	add(&gspec{name: "deep-create", ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,a; "+chain)), noID: []string{"g"}, pinID: true, events: map[string][]string{"g": {"1"}, "b": {"2"}}})
	add(&gspec{name: "deep-dirty", ops: base(gr("r.k=a; "+chain), op("load", "r")), dirty: []string{"e", "g"}, events: map[string][]string{"g": {"1"}, "d": {"3"}}})
	add(&gspec{name: "deep-add", ops: base(gr("s.k=x; "+chain), op("add", "a")), noID: []string{"d"}, pinID: true})
	wide := func(pre string, n int) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, pre+strconv.Itoa(i))
		}
		return strings.Join(l, ",")
	}
	const many = 110
	add(&gspec{name: "wide-create", many: 4 * many, ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,"+wide("n", many))), noID: []string{}, pinID: true})
	add(&gspec{name: "wide-new", many: 4 * many, noIDs: true, ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,"+wide("n", many)+"; n3.k=x; n"+strconv.Itoa(many-1)+".k=y"))})
	add(&gspec{name: "wide-delete", many: 4 * many, ops: base(gr("r.k=s,"+wide("n", many)), op("load", "r"), gr("r.k=s")), noID: []string{}, pinID: true})
	add(&gspec{name: "wide-dirty", many: 4 * many, ops: base(gr("r.k=s,"+wide("n", many)), op("load", "r"), op("dirty", strings.Split(wide("n", many), ",")...)), noID: []string{}, pinID: true})
	add(&gspec{name: "wide-add", many: 4 * many, ops: base(gr("r.k=s"), op("load", "r"), op("add", strings.Split(wide("n", many), ",")...)), noID: []string{}, pinID: true})
	// ---- C08: baseline
	b := func(s *gspec) { s.errRule = "C08/change"; add(s) }
	b(&gspec{name: "add-then-load", ops: base(gr("n.k=x; q.k=s"), op("add", "n"), op("load", "q"))})
	b(&gspec{name: "remove-then-load", ops: base(gr("r.k=w; q.k=s"), op("load", "r"), op("remove", "r"), op("load", "q"))})
	b(&gspec{name: "edit-then-load", ops: base(gr("r.k=w,s"), op("load", "r"), gr("r.k=s,n; q.k=z"), op("load", "q"))})
	b(&gspec{name: "edit-in-place", ops: base(gr("r.k=u,d,s"), op("load", "r"), gr("r.k=d,n,s"))})
	b(&gspec{name: "replace-in-place", ops: base(gr("r.k=u; u.l=x"), op("load", "r"), gr("r.k=u; u.l=y"), op("save"), gr("r.k=n; u.l=y"))})
	b(&gspec{name: "share-then-load", ops: base(gr("r.k=c; c.k=w"), op("load", "r"), gr("r.k=; c.k=w,n; q.k=c"), op("load", "q"))})
	b(&gspec{name: "added-reloaded", ops: base(gr("r.k=u; q.k=s"), op("load", "q"), op("add", "r"), op("reload", "r"))})
	b(&gspec{name: "added-reget", ops: base(gr("r.k=u; q.k=s"), op("load", "q"), op("add", "r"), op("reget", "r"))})
	b(&gspec{name: "loaded-reget", ops: base(gr("r.k=u"), op("load", "r"), gr("r.k=n"), op("reget", "r"), op("dirty", "u"))})
	b(&gspec{name: "removed-reget", ops: base(gr("r.k=u; q.k=s"), op("load", "q"), op("remove", "r"), op("reget", "r"))})
	b(&gspec{name: "saved-reget", ops: base(gr("r.k=u; q.k=s"), op("load", "q"), op("add", "r"), op("save"), op("reget", "r"), op("reload", "q"))})
	b(&gspec{name: "loaded-reloaded", ops: base(gr("r.k=u"), op("load", "r"), gr("r.k=n"), op("reload", "r"))})
	b(&gspec{name: "save-then-edit", ops: base(gr("r.k=u,d"), op("load", "r"), gr("r.k=u,n"), op("save"), gr("r.k=u,n,m"), op("dirty", "n")), dirty: []string{"u"}, events: map[string][]string{"d": {"1"}, "m": {"2"}, "n": {"3"}}})
	b(&gspec{name: "save-twice", ops: base(gr("r.k=u"), op("load", "r"), op("add", "q"), op("save"), op("save")), dirty: []string{"u", "r"}, events: map[string][]string{"q": {"1"}}})
	b(&gspec{name: "save-remove", ops: base(gr("r.k=u"), op("load", "r"), op("save"), op("remove", "r")), dirty: []string{"u"}, events: map[string][]string{"u": {"1"}, "r": {"2"}}})
	b(&gspec{name: "remove-then-event", ops: base(gr("r.k=w; q.k=s"), op("load", "r", "q"), op("remove", "r"), op("event", "r", "2"), op("event", "w", "1"))})
	b(&gspec{name: "delete-save-event", ops: base(gr("r.k=d,s; d.k=x"), op("load", "r"), gr("r.k=s; d.k=x"), op("save"), op("event", "d", "2"), op("event", "s", "3"))})
	b(&gspec{name: "delete-save-event-below", ops: base(gr("r.k=d,e; d.k=x"), op("load", "r"), gr("r.k=; d.k=x"), op("save"), op("event", "x", "2"), op("event", "e", "1"), op("save"), op("event", "r", "3"))})
	b(&gspec{name: "remove-save-event", ops: base(gr("r.k=w"), op("remove", "r"), op("save"), op("event", "r", "1"))})
	b(&gspec{name: "add-save-event", ops: base(gr("r.k=w"), op("add", "r"), op("event", "w", "1"), op("save"), op("event", "r", "2"), op("event", "w", "3"))})
	b(&gspec{name: "delete-saved-earlier", ops: base(gr("r.k=d; d.k=x"), op("load", "r"), gr("r.k=; d.k=x"), op("save"), gr("r.k=n; d.k=x")), events: map[string][]string{"d": {"1"}, "x": {"2"}, "n": {"3"}}})
	// ---- C18: moves
	m := func(s *gspec) { s.errRule = "C18/change"; add(s) }
	m(&gspec{name: "move", ops: base(gr("r.k=c,d; c.k=w,s"), op("load", "r"), gr("r.k=c,d; c.k=s; d.k=w")), dirty: []string{"w", "s"}, events: map[string][]string{"w": {"1"}}})
	m(&gspec{name: "move-two", ops: base(gr("r.k=c,d; c.k=v,w"), op("load", "r"), gr("r.k=c,d; d.k=v,w")), events: map[string][]string{"w": {"1"}}})
	m(&gspec{name: "move-three", ops: base(gr("r.k=c,d; c.k=v,w,s,t"), op("load", "r"), gr("r.k=c,d; c.k=t; d.k=v,w,s")), dirty: []string{"t"}})
	m(&gspec{name: "move-key", ops: base(gr("r.k=v,w,s"), op("load", "r"), gr("r.k=s; r.l=v,w")), dirty: []string{"s"}})
	m(&gspec{name: "move-with-others", ops: base(gr("r.k=c,d; c.k=w,g"), op("load", "r"), gr("r.k=c,d; d.k=w,n")), dirty: []string{"c"}})
	m(&gspec{name: "move-to-new", ops: base(gr("r.k=c; c.k=w"), op("load", "r"), gr("r.k=c,d; d.k=w")), dirty: []string{"w"}})
	m(&gspec{name: "move-up", ops: base(gr("r.k=c; c.k=w; w.k=x"), op("load", "r"), gr("r.k=c,w; w.k=x")), dirty: []string{"x"}})
	m(&gspec{name: "move-from-deleted", ops: base(gr("r.k=c,d; c.k=w,s"), op("load", "r"), gr("r.k=d; c.k=s; d.k=w")), dirty: []string{"s"}, events: map[string][]string{"w": {"1"}, "s": {"2"}}})
	m(&gspec{name: "move-from-deleted-kept", ops: base(gr("r.k=c,d; c.k=w"), op("load", "r"), gr("r.k=d; c.k=w; d.k=w"))})
	m(&gspec{name: "move-from-deleted-deep", ops: base(gr("r.k=c,d; c.k=v; v.k=w,x"), op("load", "r"), gr("r.k=d; c.k=v; v.k=x; d.k=w,n")), noID: []string{"n"}})
	m(&gspec{name: "move-from-removed-root", ops: base(gr("r.k=w; q.k=s"), op("load", "r", "q"), gr("q.k=s,w"), op("remove", "r")), dirty: []string{"s"}})
	m(&gspec{name: "move-to-removed-root", ops: base(gr("r.k=w; q.k=s"), op("load", "r", "q"), gr("r.k=; q.k=s,w"), op("remove", "q"))})
	m(&gspec{name: "move-from-deleted-recursive", recursive: true, ops: base(gr("r.k=c,d; c.k=w,s"), op("load", "r"), gr("r.k=d; c.k=s; d.k=w"))})
	e := func(s *gspec) { s.wantErr = "double"; s.errRule = "C18/change"; add(s) }
	e(&gspec{name: "double-create", ops: base(gr("r.k=c,d"), op("load", "r"), gr("r.k=c,d; c.k=w; d.k=w"))})
	e(&gspec{name: "double-create-key", ops: base(gr("r.k=s"), op("load", "r"), gr("r.k=s,w; r.l=w"))})
	e(&gspec{name: "double-delete", ops: base(gr("r.k=c,d; c.k=w; d.k=w"), op("load", "r"), gr("r.k=c,d"))})
	e(&gspec{name: "create-two-delete-one", ops: base(gr("r.k=c,d; c.k=w"), op("load", "r"), gr("r.k=c,d; d.k=w; d.l=w"))})
	e(&gspec{name: "create-one-delete-two", ops: base(gr("r.k=c,d; c.k=w; c.l=w"), op("load", "r"), gr("r.k=c,d; d.k=w"))})
	e(&gspec{name: "dirty-and-created", ops: base(gr("r.k=c,w"), op("load", "r"), gr("r.k=c,w; c.k=w"), op("dirty", "w"))})
	e(&gspec{name: "dirty-and-deleted", ops: base(gr("r.k=c,w; c.k=w"), op("load", "r"), gr("r.k=c,w; c.k="), op("dirty", "w"))})
	e(&gspec{name: "moved-and-kept-recursive", recursive: true, ops: base(gr("r.k=c,d; c.k=w"), op("load", "r"), gr("r.k=d; c.k=w; d.k=w"))})
	e(&gspec{name: "dirty-below-deleted-recursive", recursive: true, ops: base(gr("r.k=c,w; c.k=w"), op("load", "r"), gr("r.k=w; c.k=w"), op("dirty", "w"))})
	// ---- C19: recursive deletion
	d := func(s *gspec) { s.errRule = "C19/change"; add(s) }
	d(&gspec{name: "delete-recursive", recursive: true, ops: base(gr("r.k=w,s; w.k=x,y; w.l=z; x.k=v; s.k=t"), op("load", "r"), gr("r.k=s; w.k=x,y; w.l=z; x.k=v; s.k=t")), dirty: []string{"s"}, events: map[string][]string{"v": {"1"}}})
	d(&gspec{name: "delete-recursive-empty", recursive: true, ops: base(gr("r.k=w,s; w.a=; w.k=x; w.z=; x.k="), op("load", "r"), gr("r.k=s; w.a=; w.k=x; w.z=; x.k="))})
	d(&gspec{name: "delete-plain", ops: base(gr("r.k=w,s; w.k=x,y; x.k=v"), op("load", "r"), gr("r.k=s; w.k=x,y; x.k=v")), dirty: []string{"s"}, events: map[string][]string{"v": {"1"}}})
	d(&gspec{name: "remove-root-recursive", recursive: true, ops: base(gr("r.k=w; w.k=x; q.k=t"), op("load", "r", "q"), op("remove", "r"))})
	d(&gspec{name: "create-update-recursive", recursive: true, ops: base(gr("r.k=u; u.k=x"), op("load", "r"), gr("r.k=u,n; u.k=x; n.k=y")), dirty: []string{"u", "x"}})
	d(&gspec{name: "two-deleted-recursive", recursive: true, ops: base(gr("r.k=v,w; v.k=x; w.k=y"), op("load", "r"), gr("r.k=; v.k=x; w.k=y"))})
	// ---- commands with build and act
	c := func(s *gspec) { s.errRule = "C20/change"; s.form = "command"; add(s) }
	c(&gspec{name: "cmd-build", ops: base(gr("r.k=s,d; q.k=t"), op("load", "r", "q"), gr("r.k=s,w; w.k=x; q.k=t"), op("add", "n")), dirty: []string{"s", "q"}, noID: []string{"w", "x", "n"}, events: ev})
	c(&gspec{name: "cmd-remove", ops: base(gr("r.k=s; q.k=t"), op("load", "r", "q"), op("remove", "r"), op("add", "n")), dirty: []string{"t"}, noID: []string{"n"}})
	c(&gspec{name: "cmd-save", ops: base(gr("r.k=u,d"), op("load", "r"), gr("r.k=u,n"), op("save"), gr("r.k=u,n,m"), op("dirty", "n")), dirty: []string{"u"}})
	c(&gspec{name: "cmd-nobuild", ops: base(gr("n.k=x"), op("add", "n"))})
	// ---- misuse
	mu := func(rule, what string, s *gspec) {
		s.misuse, s.errRule = what, rule
		add(s)
		t := *s
		t.name += "-cmd"
		t.form = "command"
		if !(rule == "C08/loaded-twice" || strings.Contains(s.name, "repo")) {
			add(&t)
		}
	}
	mu("C08/loaded-twice", "loading a tracked root", &gspec{name: "load-loaded", ops: base(gr("r.k=s"), op("load", "r"), op("load", "r"))})
	mu("C08/loaded-twice", "loading a tracked root", &gspec{name: "load-added", ops: base(gr("r.k=s"), op("add", "r"), op("load", "r"))})
	mu("C16/add", "adding a tracked entity", &gspec{name: "add-loaded", ops: base(gr("r.k=s"), op("load", "r"), op("add", "r"), op("misuse"))})
	mu("C16/add", "adding a tracked entity", &gspec{name: "add-added", ops: base(gr("r.k=s"), op("add", "r"), op("add", "r"), op("misuse"))})
	mu("C16/add", "adding a tracked entity", &gspec{name: "add-added-more", ops: base(gr("q.k=t; r.k=s"), op("load", "q"), op("add", "r"), op("add", "r"), op("misuse"), op("add", "p")), dirty: []string{"q"}})
	mu("C16/add", "adding a tracked child as a root", &gspec{name: "repo-add-child", ops: base(gr("r.k=s"), op("load", "r"), op("add", "s"), op("misuse"))})
	mu("C16/remove", "removing an entity twice", &gspec{name: "remove-removed", ops: base(gr("r.k=s"), op("load", "r"), op("remove", "r"), op("remove", "r"), op("misuse"))})
	mu("C16/remove", "removing an entity twice", &gspec{name: "repo-remove-twice", ops: base(gr("r.k=s"), op("load", "r"), op("remove", "r", "r"), op("misuse"))})
	mu("C16/add", "adding a tracked entity", &gspec{name: "repo-add-save", ops: base(gr("r.k=s"), op("load", "r"), op("add", "r"), op("misuse"), op("save"))})
	mu("C16/add", "adding a tracked entity", &gspec{name: "repo-add-save-changes", pinID: true, ops: base(gr("r.k=s,u"), op("load", "r"), gr("r.k=n,u"), op("add", "q"), op("add", "r"), op("misuse"), op("dirty", "u"), op("save"))})
	mu("C16/add", "adding a removed entity", &gspec{name: "repo-add-removed", ops: base(gr("r.k=s"), op("load", "r"), op("remove", "r"), op("add", "r"), op("misuse"))})
	{
		t := &gspec{name: "remove-untracked-cmd", form: "command", misuse: "removing an untracked entity", errRule: "C16/remove", ops: base(gr("r.k=s; q.k=t"), op("load", "r"), op("remove", "q"), op("misuse"))}
		add(t)
		u := *t
		u.name, u.ops = "remove-untracked-more-cmd", base(gr("r.k=s; q.k=t"), op("load", "r"), op("remove", "q"), op("misuse"), op("add", "n"))
		add(&u)
	}
	// ---- C48: entities that do not declare their children
	k := func(s *gspec) { s.errRule = "C48/found"; s.pinID = true; add(s) }
	k(&gspec{name: "fields-slice", fields: map[string]string{"r": "BaseEntity BaseEntity; Name string; Items []Kid; Count int"},
		ops: base(gr("r.Items=s,d"), op("load", "r"), gr("r.Items=s,n")), dirty: []string{"s"}, noID: []string{"n"}, events: map[string][]string{"n": {"1"}, "d": {"2"}}})
	k(&gspec{name: "fields-slice-only", fields: map[string]string{"r": "Items []IEntity"},
		ops: base(gr("r.Items="), op("load", "r"), gr("r.Items=n,m")), noID: []string{"n", "m"}, events: map[string][]string{"n": {"1"}, "m": {"2"}}})
	k(&gspec{name: "fields-emptied", fields: map[string]string{"r": "BaseEntity *BaseEntity; Items []IEntity; One Kid"},
		ops: base(gr("r.Items=s,d; r.One=u"), op("load", "r"), gr("r.Items=")), dirty: []string{"r"}})
	k(&gspec{name: "fields-one", fields: map[string]string{"r": "BaseEntity BaseEntity; One Kid; Any IEntity; None Kid"},
		ops: base(gr("r.One=s; r.Any=d"), op("load", "r"), gr("r.One=s; r.None=n")), dirty: []string{"s"}, noID: []string{"n"}})
	k(&gspec{name: "fields-swap", fields: map[string]string{"r": "One Kid; Any IEntity; BaseEntity BaseEntity"},
		ops: base(gr("r.One=s"), op("load", "r"), gr("r.One=n; r.Any=s")), dirty: []string{"r"}, noID: []string{"n"}})
	k(&gspec{name: "fields-map", fields: map[string]string{"r": "BaseEntity BaseEntity; ByName map[string]Kid; Tags []string; Attrs map[string]string; ByID map[int]IEntity"},
		ops: base(gr("r.ByName=s,d; r.ByID=t"), op("load", "r"), gr("r.ByName=s; r.ByID=t,n")), dirty: []string{"s", "t"}, noID: []string{"n"}})
	k(&gspec{name: "fields-kinds", fields: map[string]string{"r": "BaseEntity BaseEntity; One Kid; List []Kid; Map map[string]Kid"},
		ops: base(gr("r.One=a; r.List=b,c; r.Map=d"), op("load", "r"), op("dirty", "a", "c"))})
	k(&gspec{name: "fields-kinds-more", fields: map[string]string{"r": "BaseEntity BaseEntity; Any IEntity; Anys []IEntity; AnyMap map[int]IEntity"},
		ops: base(gr("r.Any=a; r.Anys=b; r.AnyMap=c,d"), op("load", "r"), op("dirty", "a", "b", "d"))})
	k(&gspec{name: "fields-hidden", fields: map[string]string{"r": "BaseEntity BaseEntity; cache []Kid; Items []Kid; last Kid; index map[string]IEntity"},
		ops: base(gr("r.Items=s; r.cache=x; r.last=y"), op("load", "r"), gr("r.Items=s; r.cache=s,z; r.index=w")), dirty: []string{"s", "x", "y"}})
	k(&gspec{name: "fields-base", fields: map[string]string{"r": "AuditBaseEntity AuditBaseEntity; Items []Kid; Mod AuditBaseEntity"},
		ops: base(gr("r.Items=s,d"), op("load", "r"), gr("r.Items=s,n")), dirty: []string{"s"}, noID: []string{"n"}})
	k(&gspec{name: "fields-added", fields: map[string]string{"r": "BaseEntity BaseEntity; Items []Kid; One IEntity; More map[string]IEntity"},
		ops: base(gr("r.Items=s,t; r.One=u; r.More=v"), op("add", "r")), events: map[string][]string{"u": {"1"}, "v": {"2"}}, noID: []string{"r", "s", "t", "u", "v"}})
	k(&gspec{name: "fields-deep", fields: map[string]string{"r": "Items []IEntity", "s": "BaseEntity BaseEntity; Sub []Kid; One Kid"},
		ops: base(gr("r.Items=s,t; s.Sub=x,y; s.One=u"), op("load", "r"), gr("r.Items=s,t; s.Sub=y,n")), dirty: []string{"y", "t"}, noID: []string{"n"}})
	k(&gspec{name: "fields-recursive", recursive: true, fields: map[string]string{"r": "Items []IEntity", "s": "BaseEntity BaseEntity; Sub []Kid; One Kid; ByName map[string]Kid"},
		ops: base(gr("r.Items=s,t; s.Sub=x,y; s.One=u; s.ByName=v"), op("load", "r"), gr("r.Items=t; s.Sub=x,y; s.One=u; s.ByName=v"))})
	k(&gspec{name: "fields-save", fields: map[string]string{"r": "BaseEntity BaseEntity; Items []Kid; ByName map[string]IEntity"},
		ops: base(gr("r.Items=s"), op("load", "r"), gr("r.Items=s,n; r.ByName=m"), op("save"), gr("r.Items=n; r.ByName=m"), op("dirty", "m")), noID: []string{"n", "m"}})
	k(&gspec{name: "fields-declared", fields: map[string]string{"r": "BaseEntity BaseEntity; Items []Kid; One IEntity"}, declared: []string{"r"},
		ops: base(gr("r.Items=x; r.One=y; r.list=s,d"), op("load", "r"), gr("r.Items=x,z; r.list=s,n")), dirty: []string{"s", "x", "y"}, noID: []string{"n"}})
	k(&gspec{name: "fields-declared-none", fields: map[string]string{"r": "BaseEntity BaseEntity; Items []Kid; One IEntity"}, declared: []string{"r"},
		ops: base(gr("r.Items=x; r.One=y"), op("load", "r"), gr("r.Items=x,z")), dirty: []string{"r", "x", "y"}})
	// ---- faults in every step of a save
	add(&gspec{name: "faults", faults: true, ops: base(gr("r.k=u,d"), op("load", "r"), gr("r.k=u,n"), op("save"), gr("r.k=n"), op("dirty", "n")), dirty: []string{"u"}, events: map[string][]string{"n": {"1"}}})
	add(&gspec{name: "faults-remove", faults: true, ops: base(gr("r.k=w; q.k=s"), op("load", "q"), op("remove", "r"), gr("r.k=w; q.k=s,n")), events: map[string][]string{"r": {"1"}}})
	add(&gspec{name: "faults-add", faults: true, recursive: true, ops: base(gr("n.k=x; r.k=d; d.k=y"), op("add", "n"), op("load", "r"), gr("n.k=x; r.k=; d.k=y"), op("save"), op("remove", "r"))})
	add(&gspec{name: "faults-cmd", faults: true, form: "command", ops: base(gr("r.k=s; q.k=t"), op("load", "r", "q"), op("remove", "q"), op("add", "n")), dirty: []string{"s"}, events: map[string][]string{"n": {"1"}, "q": {"2"}}})
	add(&gspec{name: "hookless", hookless: true, ops: base(gr("r.k=u,d"), op("load", "r"), gr("r.k=u,n")), dirty: []string{"u"}})
	return r
}

func graphScenarios() []*Scenario {
	var r []*Scenario
	for _, s := range graphSpecs() {
		var opts []string
		if strings.HasPrefix(s.name, "fields-") && len(s.fields) > 0 && s.name != "fields-slice" && s.name != "fields-slice-only" && s.name != "fields-swap" {
			// the order of the keys is covered by the shapes above
			opts = []string{"oneorder"}
		}
		depth := 7
		if strings.HasPrefix(s.name, "deep-") || strings.HasPrefix(s.name, "wide-") {
			depth = 14
			opts = []string{"oneorder"}
		}
		r = append(r, &Scenario{Name: "graph/" + s.name, Run: scenGraph(s), Depth: depth, Opts: opts, Props: []string{"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C16", "C18", "C19", "C20", "C48", "C52"}})
	}
	return r
}
