exec(open(__file__.replace('root2','root1') if '__file__' in globals() else 'seeds/root1.py').read().split('SEEDS=[')[0])
SEEDS=[
dict(id='stage-sharedactions',property='C15',needs='two runs of one engine, looking at the first result after the second run',
 breaks='the results of the runs share one array, so a later run overwrites the actions of an earlier result',
 edits=[('engine.go','''	logger      logr.Logger
	options     Options
}

func NewEngine''','''	logger      logr.Logger
	options     Options
	actions     []*Action
}

func NewEngine'''),('engine.go','''		idGenerator: options.IDGenerator,
	}
}
''','''		idGenerator: options.IDGenerator,
		actions:     make([]*Action, 0, 16),
	}
}
'''),('engine.go','''		result:      &Result{},
''','''		result:      &Result{Actions: e.actions},
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	r1 := e.Create(context.Background(), ent("a"))
	if len(r1.Actions) != 1 || r1.Actions[0].Models[0].GetID() != "a" {
		t.Fatal("first run")
	}
	r2 := e.Create(context.Background(), ent("b"))
	if r1.Actions[0].Models[0].GetID() != "a" || r2.Actions[0].Models[0].GetID() != "b" {
		t.Fatal("the second run changed the result of the first")
	}
}
'''),
dict(id='handler-reusedevent',property='C46',needs='two events of one type where a field set by the first is missing in the second',
 breaks='one event value is reused for all calls, so fields of an earlier event survive into a later one',
 edits=[('engine.go','''	RegisterEventHandler(eventType, func(ctx context.Context, evt *DomainEvent) error {
		var bizEvt reflect.Value
''','''	newEvt := reflect.New(evtType)
	RegisterEventHandler(eventType, func(ctx context.Context, evt *DomainEvent) error {
		var bizEvt reflect.Value
'''),('engine.go','''			bizEvt = reflect.New(evtType)
			if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
				e.logger''','''			bizEvt = newEvt
			if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
				e.logger''')],
 demo=H+'''
type evtA struct{ X, Y string }

func TestDemo(t *testing.T) {
	w := newWorld()
	e, b := engine(w)
	var got []evtA
	e.RegisterEventHandler("demo-reuse", func(a *evtA) ddd.MainFunc {
		got = append(got, *a)
		return func(ctx context.Context, repo *ddd.Repository) error { return nil }
	})
	for _, p := range []string{`{"X":"1","Y":"2"}`, `{"X":"3"}`} {
		if err := b.cb(context.Background(), &ddd.DomainEvent{Type: "demo-reuse", Payload: []byte(p)}); err != nil {
			t.Fatal(err)
		}
	}
	if got[0] != (evtA{"1", "2"}) || got[1] != (evtA{"3", ""}) {
		t.Fatal("not the decoded event", got)
	}
}
'''),
dict(id='option-idgen',property='C47',needs='an ID generator given as an option of the run',
 breaks='the generator of the engine is used instead of the one configured for the run',
 edits=[('engine.go','''	e.logger = e.options.Logger
	e.idGenerator = e.options.IDGenerator
''','''	e.logger = e.options.Logger
''')],
 demo=H+'''
type gen struct{ n int }

func (g *gen) NewID() (string, error) { g.n++; return "run-id", nil }

func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	g, o := &gen{}, ent("")
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		repo.Add(o)
		return nil
	}, ddd.WithIDGenerator(g))
	if res.Error != nil || o.GetID() != "run-id" || g.n != 1 || w.ids != 0 {
		t.Fatal("the generator of the run was not used", o.GetID())
	}
}
'''),
dict(id='dryrun-notx',property='C09',needs='a dry run that is configured without transactions and has events',
 breaks='events reach the event bus in a dry run',
 edits=[('engine.go','''	if e.options.DryRun {
		return nil
	}
	if !e.options.WithTransaction {
		e.logger.Info("engine not support transaction")
		return e.eventBus.Dispatch(ctx, events...)
	}
''','''	if !e.options.WithTransaction {
		e.logger.Info("engine not support transaction")
		return e.eventBus.Dispatch(ctx, events...)
	}
	if e.options.DryRun {
		return nil
	}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for _, tx := range []ddd.Option{ddd.WithTransaction, ddd.WithoutTransaction} {
		w := newWorld()
		e, b := engine(w)
		res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			o := ent("o1")
			o.AddEvent(&demoEvt{"created", "o1"})
			repo.Add(o)
			return nil
		}, tx, ddd.WithDryRun)
		if res.Error != nil || len(b.out) != 0 || len(w.acts) != 0 {
			t.Fatal("a dry run had effects", res.Error, w.log)
		}
	}
}
'''),
dict(id='save-after-misuse',property='C16',needs='a misuse of add or remove followed by an explicit save in the middle of the run',
 breaks='the explicit save writes although a misuse was recorded',
 edits=[('engine.go','''	if err := r.getError(); err != nil {
		return err
	}
	return r.stage.commit(ctx)
''','''	if err := r.stage.commit(ctx); err != nil {
		return err
	}
	return r.getError()
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		a := ent("a")
		repo.Add(a)
		repo.Add(a)
		return repo.Save(ctx)
	})
	if res.Error == nil {
		t.Fatal("misuse lost")
	}
	if len(w.acts) != 0 {
		t.Fatal("written after the misuse was recorded", w.log)
	}
}
'''),
dict(id='actions-typename',property='C05',needs='entities of two kinds whose models have the same type name',
 breaks='models of different types are put into one action',
 edits=[('engine.go','''	typeActions := make(map[OpType]map[reflect.Type]*Action, 3)
	poTypes := []reflect.Type{}
''','''	typeActions := make(map[OpType]map[string]*Action, 3)
	poTypes := []string{}
'''),('engine.go','''			poType := reflect.TypeOf(po)
			poTypes = append(poTypes, poType)
			if _, in := typeActions[op]; !in {
				typeActions[op] = map[reflect.Type]*Action{}
			}
''','''			poType := reflect.TypeOf(po).String()
			poTypes = append(poTypes, poType)
			if _, in := typeActions[op]; !in {
				typeActions[op] = map[string]*Action{}
			}
''')],
 demo=H+'''
type demoConv struct{ *demoWorld }

type dModel interface{ GetID() string }

func (d demoConv) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	if e.GetID() < "m" {
		return modelA(e.GetID()), nil
	}
	return modelB(e.GetID()), nil
}

type withID struct{ ID string }

func (m withID) GetID() string { return m.ID }

func modelA(id string) ddd.IModel {
	type model struct {
		withID
		A int
	}
	return &model{withID: withID{id}}
}

func modelB(id string) ddd.IModel {
	type model struct {
		withID
		B string
	}
	return &model{withID: withID{id}}
}

func TestDemo(t *testing.T) {
	w := newWorld()
	e := ddd.NewEngine(w, demoConv{w})
	res := e.Create(context.Background(), ent("a"), ent("x"), ent("b"), ent("y"))
	if res.Error != nil {
		t.Fatal(res.Error)
	}
	for _, a := range w.acts {
		for _, m := range a.Models {
			if reflect.TypeOf(m) != reflect.TypeOf(a.Models[0]) {
				t.Fatal("models of different types in one action")
			}
		}
	}
	if len(w.acts) != 2 {
		t.Fatal(len(w.acts))
	}
}
'''.replace('',''),),
dict(id='router-allhandlers',property='C13',needs='two handlers of one event type of which the first fails',
 breaks='later handlers are still called after one returned an error',
 edits=[('event.go','''		outs := h.f.Call([]reflect.Value{reflect.ValueOf(ctx), bizEvt})
		if !outs[0].IsNil() {
			return outs[0].Interface().(error)
		}
	}

	return nil
''','''		outs := h.f.Call([]reflect.Value{reflect.ValueOf(ctx), bizEvt})
		if !outs[0].IsNil() && failed == nil {
			failed = outs[0].Interface().(error)
		}
	}

	return failed
'''),('event.go','''	for _, h := range handlers {
		var bizEvt''','''	var failed error
	for _, h := range handlers {
		var bizEvt''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	_, b := engine(w)
	n := 0
	ddd.RegisterEventHandler("demo-stop", func(ctx context.Context, e *demoEvt) error { n++; return errDemo })
	ddd.RegisterEventHandler("demo-stop", func(ctx context.Context, e *demoEvt) error { n += 10; return nil })
	err := b.cb(context.Background(), &ddd.DomainEvent{Type: "demo-stop", Payload: []byte("{}")})
	if err != errDemo || n != 1 {
		t.Fatal(err, n)
	}
}
'''),
dict(id='dirty-onlyleaf',property='C04',needs='a changed entity that has a changed entity below it',
 breaks='an entity below a dirty one is not compared with the baseline',
 edits=[('snapshot.go','''		for _, item := range remain {
			res = append(res, entityDiff(item, pool)...)
		}
''','''		for _, item := range remain {
			if len(dirty) == len(remain) && len(remain) > 1 {
				break
			}
			res = append(res, entityDiff(item, pool)...)
		}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	kids := []*demoEnt{ent("k1", ent("g1")), ent("k2", ent("g2"))}
	o := ent("o", kids...)
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		if err := repo.CustomGet(ctx, func(ctx context.Context, roots ...ddd.IEntity) {}, o); err != nil {
			return err
		}
		for _, k := range kids {
			k.Dirty()
			k.Items[0].Dirty()
		}
		return nil
	})
	if res.Error != nil {
		t.Fatal(res.Error)
	}
	for _, id := range []string{"k1", "k2", "g1", "g2"} {
		if !w.has("exec 2 " + id) {
			t.Fatal("update of", id, "lost", w.log)
		}
	}
}
'''),
dict(id='moved-hooks',property='C07',needs='a before hook of a later entity fails',
 breaks='the after hooks run per change instead of after all writes, interleaved with before hooks',
 edits=[('engine.go','''	// 执行保存后的 hook
	for _, c := range changed {
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, false); err != nil {
				return err
			}
		}
	}
''','''	// 执行保存后的 hook
	for _, c := range changed {
		if c.changeType == deleteChildren && c.parent == nil {
			continue
		}
		for _, entity := range c.children {
			if c.changeType == deleteChildren && e.options.RecursiveDelete && c.parent != e.meta {
				continue // 随父实体一起删除
			}
			if err := execHook(ctx, entity, c.changeType, false); err != nil {
				return err
			}
		}
	}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w, ddd.WithRecursiveDelete)
	n := map[string]int{}
	k := ent("k")
	o := ent("o", k)
	k.hook = func(s string) error { n[s]++; return nil }
	res := e.Delete(context.Background(), o)
	if res.Error != nil {
		t.Fatal(res.Error)
	}
	if n["before delete"] != 1 || n["after delete"] != 1 || len(n) != 2 {
		t.Fatal("hooks of the deleted child", n)
	}
}
'''),
]
for s in SEEDS:
    if s['id']=='actions-typename': s['demo']=s['demo'].replace('\t"testing"\n','\t"reflect"\n\t"testing"\n')
    if s['id']=='moved-hooks': s.update(id='hooks-recursive',needs='a recursive delete of an entity with children that have an after-delete hook',breaks='the after-delete hook of entities deleted along with their parent is not run')
