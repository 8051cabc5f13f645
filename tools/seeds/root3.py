exec(open(__file__.replace('root3','root1') if '__file__' in globals() else 'seeds/root1.py').read().split('SEEDS=[')[0])
SEEDS=[
dict(id='break-commits',property='C01',needs='a command that returns the break sentinel after a mid-run save',
 breaks='a run that is broken off commits what it saved so far instead of rolling back',
 edits=[('engine.go','''		if result.Error != nil || result.Break {
			if err := e.executor.RollBack''','''		if result.Error != nil || (result.Break && len(e.result.Actions) == 0) {
			if err := e.executor.RollBack''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for _, save := range []bool{false, true} {
		w := newWorld()
		e, _ := engine(w)
		res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			repo.Add(ent("a"))
			if save {
				if err := repo.Save(ctx); err != nil {
					return err
				}
			}
			return ddd.ErrBreak
		})
		if !res.Break || res.Error != nil {
			t.Fatalf("%+v", res)
		}
		if !w.has("rollback tx=1") || w.has("commit tx=1") {
			t.Fatal("save", save, w.log)
		}
	}
}
'''),
dict(id='idgen-once',property='C06',needs='two or more entities without ID created under one parent in one save',
 breaks='siblings created together share one ID, so one row overwrites the other',
 edits=[('engine.go','''			for _, child := range item.children {
				if child.GetID() == "" {
					id, err := e.idGenerator.NewID()
					if err != nil {
						return err
					}
					child.SetID(id)''','''			newID := ""
			for _, child := range item.children {
				if child.GetID() == "" {
					if newID == "" {
						id, err := e.idGenerator.NewID()
						if err != nil {
							return err
						}
						newID = id
					}
					child.SetID(newID)''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	a, b, c := ent(""), ent(""), ent("")
	if res := e.Create(context.Background(), ent("r", a, b), c); res.Error != nil {
		t.Fatal(res.Error)
	}
	if a.GetID() == "" || a.GetID() == b.GetID() || a.GetID() == c.GetID() || b.GetID() == c.GetID() {
		t.Fatal(a.GetID(), b.GetID(), c.GetID())
	}
}
'''),
dict(id='snapshot-sharedchildren',property='C08',needs='an aggregate that declares its children in a list it keeps and edits the list in place after loading',
 breaks='the baseline shares the child lists of the entity, so a child replaced in place is not noticed',
 edits=[('engine.go','''		v2 := make([]IEntity, len(v))
		copy(v2, v)
		snapshot[k] = v2''','''		snapshot[k] = v[:len(v):len(v)]''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	w.rows["r"] = "-"
	e, _ := engine(w)
	r, a, b := ent("r"), ent("a"), ent("b")
	r.kids = map[string][]ddd.IEntity{"k": {a}}
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		if err := repo.Get(ctx, r); err != nil {
			return err
		}
		r.kids["k"][0] = b
		return nil
	})
	if res.Error != nil {
		t.Fatal(res.Error)
	}
	if !w.has("exec 1 b") || !w.has("exec 3 a") {
		t.Fatal(w.log)
	}
}
'''),
dict(id='errlist-unwrap',property='C03',needs='two misuse errors in one act step where the caller looks for the second',
 breaks='of several errors of a run only the first can be found in the result',
 edits=[('engine.go','''func (e ErrList) Error() string {
	errs := make([]string, 0)
	for _, err := range e {
		errs = append(errs, err.Error())
	}
	return strings.Join(errs, ", ")
}''','''func (e ErrList) Error() string {
	errs := make([]string, 0)
	for _, err := range e {
		errs = append(errs, err.Error())
	}
	return strings.Join(errs, ", ")
}

func (e ErrList) Is(target error) bool {
	return target == error(ErrEntityRepeated)
}''')],
 demo=H+'''
'''),
dict(id='move-lostfields',property='C18',needs='two entities moved between parents in one save',
 breaks='when several entities move at once all but the last are forgotten',
 edits=[],demo=''),
dict(id='hook-errlost',property='C03',needs='an after-update hook that fails',
 breaks='an error of an after-update hook does not fail the run',
 edits=[('engine.go','''			if err := saver.AfterUpdate(ctx); err != nil {
				return err
			}''','''			if err := saver.AfterUpdate(ctx); err != nil && ctx.Err() != nil {
				return err
			}''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for _, k := range []string{"before update", "after update"} {
		w := newWorld()
		w.rows["r"] = "-"
		e, _ := engine(w)
		r := ent("r")
		r.hook = func(n string) error {
			if n == k {
				return errDemo
			}
			return nil
		}
		res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			if err := repo.Get(ctx, r); err != nil {
				return err
			}
			r.Text = "x"
			r.Dirty()
			return nil
		})
		if res.Error == nil || !w.has("rollback tx=1") {
			t.Fatal(k, res.Error, w.log)
		}
	}
}
'''),
dict(id='persist-partialevents',property='C11',needs='more than one event in a run with event persistence, of which one conversion fails',
 breaks='an event whose conversion for persistence fails is left out silently when it is not the only one',
 edits=[('engine.go','''	pos := make([]IModel, len(events))
	for i, evt := range events {
		po, err := e.options.EventPersist(evt)
		if err != nil {
			return nil, err
		}
		pos[i] = po
	}''','''	pos := make([]IModel, 0, len(events))
	for _, evt := range events {
		po, err := e.options.EventPersist(evt)
		if err != nil {
			if len(events) > 1 && len(pos) > 0 {
				e.logger.Error(err, "event persist failed", "event", evt.ID)
				continue
			}
			return nil, err
		}
		pos = append(pos, po)
	}''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for bad := 0; bad < 3; bad++ {
		w := newWorld()
		n := 0
		e, _ := engine(w, ddd.WithEventPersist(func(evt *ddd.DomainEvent) (ddd.IModel, error) {
			n++
			if n-1 == bad {
				return nil, errDemo
			}
			return &demoEventModel{evt.ID}, nil
		}))
		r := ent("r")
		for i := 0; i < 3; i++ {
			r.AddEvent(&demoEvt{"t", "r"})
		}
		if res := e.Create(context.Background(), r); res.Error == nil || w.has("commit tx=1") {
			t.Fatal(bad, res.Error)
		}
	}
}
'''),
dict(id='txcheck-decodedefault',property='C14',needs='a transaction check for an event whose payload does not decode',
 breaks='an undecodable event is answered with unknown, so its message is kept for ever instead of rolled back',
 edits=[('event.go','''		if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
			return TXRollBack
		}''','''		if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
			return TXUnknown
		}''')],
 demo=H+'''
type evtC struct{ X int }

func TestDemo(t *testing.T) {
	w := newWorld()
	_, b := engine(w)
	ddd.RegisterEventTXChecker("demo-tx", func(e *evtC) ddd.TXStatus { return ddd.TXCommit })
	for p, want := range map[string]ddd.TXStatus{`{"X":1}`: ddd.TXCommit, `{"X":"a"}`: ddd.TXRollBack, `{`: ddd.TXRollBack} {
		if st := b.tx(&ddd.DomainEvent{Type: "demo-tx", Payload: []byte(p)}); st != want {
			t.Fatal(p, st, want)
		}
	}
}
'''),
dict(id='postsave-commitfail',property='C17',needs='a run whose commit fails and that has a post-save hook',
 breaks='post-save hooks are called although the commit failed',
 edits=[('engine.go','''	res := do(ctx)
	if res.Error == nil && len(e.options.PostSaveHooks) > 0 {''','''	res := do(ctx)
	if (res.Error == nil || len(e.result.Actions) > 0 && res == e.result) && len(e.options.PostSaveHooks) > 0 {''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for _, what := range []string{"begin", "exec 1", "commit", "dispatch", ""} {
		w := newWorld()
		w.fail[what] = errDemo
		calls := 0
		e, _ := engine(w, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { calls++ }))
		r := ent("r")
		r.AddEvent(&demoEvt{"t", "r"})
		res := e.Create(context.Background(), r)
		if want := map[bool]int{true: 1, false: 0}[what == ""]; calls != want || (res.Error == nil) != (what == "") {
			t.Fatal(what, calls, res.Error)
		}
	}
}
'''),
dict(id='recdel-twolevels',property='C19',needs='a recursive delete of an aggregate with three or more levels below the deleted entity',
 breaks='descendants below the second level survive a recursive delete',
 edits=[('snapshot.go','''	for _, item := range changed {
		if item.changeType == deleteChildren {
			for _, c := range item.children {
				if err := walk(c, item.parent,''','''	depth := map[IEntity]int{}
	for _, item := range changed {
		if item.changeType == deleteChildren {
			for _, c := range item.children {
				root := c
				if err := walk(c, item.parent,'''),('snapshot.go','''					for key, entities := range children {
						deleted := make''','''					depth[entity] = depth[parent] + 1
					if depth[entity] > 2 && entity != root {
						return nil
					}
					for key, entities := range children {
						deleted := make''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 2, 3, 4, 5} {
		w := newWorld()
		e, _ := engine(w, ddd.WithRecursiveDelete)
		x := ent("x0")
		top := ent("top", x)
		for i := 1; i < n; i++ {
			y := ent("x" + string(rune('0'+i)))
			x.Items = append(x.Items, y)
			x = y
		}
		if res := e.Delete(context.Background(), top); res.Error != nil {
			t.Fatal(res.Error)
		}
		for i := 0; i < n; i++ {
			if id := "x" + string(rune('0'+i)); !w.has("exec 3 " + id) {
				t.Fatal(n, id, w.log)
			}
		}
	}
}
'''),
dict(id='load-sliceshared',property='C21',needs='a collection of two or more rows',
 breaks='all elements of a loaded collection are the entity of the last row',
 edits=[('engine.go','''	entitiesVal := resultVal.Elem()
	for i := 0; i < posPointer.Elem().Len(); i++ {
		newEntity := reflect.New(eType)
''','''	entitiesVal := resultVal.Elem()
	newEntity := entity
	for i := 0; i < posPointer.Elem().Len(); i++ {
		if entitiesVal.Len() == 0 && i > 0 {
			newEntity = reflect.New(eType)
		}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	w.rows["r"] = "-"
	w.rows["a"], w.rows["b"] = "r", "r"
	e, _ := engine(w)
	r := ent("r")
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		return repo.Get(ctx, r, &r.Items)
	})
	if res.Error != nil || len(r.Items) != 2 {
		t.Fatal(res.Error, len(r.Items))
	}
	if r.Items[0] == r.Items[1] || r.Items[0].GetID() == r.Items[1].GetID() {
		t.Fatal("the elements are one entity")
	}
}
'''),
dict(id='envelope-sender',property='C22',needs='two options on one event',
 breaks='the send type requested by an earlier option is reset by a later one',
 edits=[('event.go','''	for _, o := range opts {
		o(opt)
	}
	bs, err''','''	for _, o := range opts {
		opt = &EventOption{
			SendType: SendTypeNormal,
		}
		o(opt)
	}
	bs, err''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	at := func(o *ddd.EventOption) { o.SendTime = time.Now() }
	for i, opts := range [][]ddd.EventOpt{{ddd.WithSendType(ddd.SendTypeFIFO)}, {at, ddd.WithSendType(ddd.SendTypeFIFO)}, {ddd.WithSendType(ddd.SendTypeFIFO), at}} {
		if e := ddd.NewDomainEvent(&demoEvt{"t", "s"}, opts...); e.SendType != ddd.SendTypeFIFO {
			t.Fatal(i, e.SendType)
		}
	}
}
'''),
dict(id='actions-lastsave',property='C49',needs='a run with an explicit mid-run save',
 breaks='the result only lists the actions of the last save of a run',
 edits=[('engine.go','''	e.result.Actions = append(e.result.Actions, actions...)''','''	if len(actions) > 0 {
		e.result.Actions = actions
	}''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		repo.Add(ent("a"))
		if err := repo.Save(ctx); err != nil {
			return err
		}
		repo.Add(ent("b"))
		return nil
	})
	if res.Error != nil || len(res.Actions) != len(w.acts) || len(w.acts) != 2 {
		t.Fatal(res.Error, len(res.Actions), len(w.acts))
	}
	for i := range w.acts {
		if res.Actions[i] != w.acts[i] {
			t.Fatal(i)
		}
	}
}
'''),
dict(id='setid-keepfirst',property='C50',needs='an entity that is given a second ID',
 breaks='SetID is ignored once the entity has an ID',
 edits=[('domain.go','''	e.id = id
''','''	if e.id == "" {
		e.id = id
	}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	b := ddd.NewBase("a")
	b.SetID("b")
	if b.GetID() != "b" {
		t.Fatal(b.GetID())
	}
}
'''),
]
SEEDS=[s for s in SEEDS if s['edits'] and 'func Test' in s['demo']]
