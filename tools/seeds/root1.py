H='''package dddfirework_test

import (
	"context"
	"testing"
	"time"

	ddd "github.com/bytedance/dddfirework"
)

var _ = time.Now
var _ context.Context
var _ ddd.IEntity

'''
SEEDS=[
dict(id='lock-unsorted',property='C02',needs='two or more lock keys that are not given in sorted order (two runs with opposite orders then deadlock)',
 breaks='keys are acquired in the order given instead of one global order',
 edits=[('engine.go','''		sort.Strings(lockKeys)
		for i := 1; i < len(lockKeys); i++ {
			if lockKeys[i] == lockKeys[i-1] {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", lockKeys[i]))
			}
		}
''','''		seen := make(map[string]struct{}, len(lockKeys))
		for _, key := range lockKeys {
			if _, in := seen[key]; in {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", key))
			}
			seen[key] = struct{}{}
		}
''')],
 demo=H+'''
type demoCmd struct{ keys []string }

func (c *demoCmd) Init(ctx context.Context) ([]string, error)            { return c.keys, nil }
func (c *demoCmd) Main(ctx context.Context, repo *ddd.Repository) error { return nil }

func TestDemo(t *testing.T) {
	for _, keys := range [][]string{{"a", "b", "c"}, {"c", "a", "b"}, {"b", "a"}} {
		w := newWorld()
		e, _ := engine(w)
		if res := e.Run(context.Background(), &demoCmd{keys}); res.Error != nil {
			t.Fatal(res.Error)
		}
		last := ""
		for _, l := range w.log {
			if len(l) > 5 && l[:5] == "lock " {
				if l < last {
					t.Fatalf("%v: locked %s after %s", keys, l, last)
				}
				last = l
			}
		}
	}
}
'''),
dict(id='commitfail-busrollback',property='C12',needs='the executor commit of a run with a transactional event fails',
 breaks='a transactional message is rolled back although the outcome of the commit is unknown',
 edits=[('engine.go','''			e.logger.Error(err, "commit failed", "err", err)
''','''			e.logger.Error(err, "commit failed", "err", err)
			if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok && e.eventCtx != nil {
				_ = txEventBus.Rollback(e.eventCtx)
			}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	w.fail["commit"] = errDemo
	e, _ := engine(w)
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		o := ent("o1")
		o.AddEvent(&demoEvt{"created", "o1"}, ddd.WithSendType(ddd.SendTypeTransaction))
		repo.Add(o)
		return nil
	})
	if res.Error == nil {
		t.Fatal("commit failure lost")
	}
	if !w.has("announce created") {
		t.Fatal("not announced")
	}
	if w.has("busrollback msg=1") || w.has("buscommit msg=1") {
		t.Fatal("the message was decided although the commit outcome is unknown", w.log)
	}
}
'''),
dict(id='events-sameinstant',property='C10',needs='two events created at the same instant',
 breaks='events of the same creation time are ordered by map iteration instead of by ID',
 edits=[('engine.go','''		return events[i].CreatedAt.Before(events[j].CreatedAt) ||
			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)
''','''		return events[i].CreatedAt.Before(events[j].CreatedAt)
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		w := newWorld()
		e, b := engine(w)
		res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			o := ent("o1")
			for i := 0; i < 6; i++ {
				o.AddEvent(&demoEvt{"created", "o1"})
			}
			now := time.Now()
			for _, ev := range o.GetEvents() {
				ev.CreatedAt = now
			}
			repo.Add(o)
			return nil
		})
		if res.Error != nil || len(b.out) != 6 {
			t.Fatal(res.Error, len(b.out))
		}
		for i := 1; i < 6; i++ {
			if b.out[i-1].ID > b.out[i].ID {
				t.Fatal("events of one instant are not in ID order")
			}
		}
	}
}
'''),
dict(id='deleted-events-lost',property='C10',needs='a child entity is removed and a mid-run save happens before the end of the run',
 breaks='events of entities deleted by an earlier save of the run are dropped',
 edits=[('engine.go','''	for _, c := range changed {
		if c.changeType == deleteChildren {
			for _, entity := range c.children {
				e.meta.Recycle(entity)
			}
		}
	}
''','''	e.meta.deleted = e.meta.deleted[:0]
	for _, c := range changed {
		if c.changeType == deleteChildren {
			for _, entity := range c.children {
				e.meta.Recycle(entity)
			}
		}
	}
''')],
 demo=H+'''
func TestDemo(t *testing.T) {
	w := newWorld()
	e, b := engine(w)
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		item := ent("i1")
		o := ent("o1", item)
		repo.Add(o)
		if err := repo.Save(ctx); err != nil {
			return err
		}
		item.AddEvent(&demoEvt{"removed", "i1"})
		o.Items = nil
		return repo.Save(ctx)
	})
	if res.Error != nil {
		t.Fatal(res.Error)
	}
	if len(b.out) != 1 {
		t.Fatal("the event of the deleted item is lost", w.log)
	}
}
'''),
dict(id='build-noid',property='C20',needs='a deprecated command whose Build returns several roots, a later one without ID',
 breaks='only the first root returned by Build is checked for an ID',
 edits=[('engine.go','''		for _, r := range buildRoots {
			if r.GetID() == "" {
				return fmt.Errorf("build entities must have ID, for create case, just use container.Add(**) at act func")
			}
		}
''','''		if len(buildRoots) > 0 && buildRoots[0].GetID() == "" {
			return fmt.Errorf("build entities must have ID, for create case, just use container.Add(**) at act func")
		}
''')],
 demo=H+'''
type buildCmd struct {
	ddd.Command
	roots []ddd.IEntity
	acted bool
}

func (c *buildCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.roots, nil
}
func (c *buildCmd) Act(ctx context.Context, container ddd.RootContainer, roots ...ddd.IEntity) error {
	c.acted = true
	return nil
}

func TestDemo(t *testing.T) {
	w := newWorld()
	e, _ := engine(w)
	c := &buildCmd{roots: []ddd.IEntity{ent("o1"), ent("")}}
	res := e.Run(context.Background(), c)
	if res.Error == nil || c.acted {
		t.Fatal("a root without ID was accepted as loaded", res.Error, c.acted)
	}
}
'''),
]
