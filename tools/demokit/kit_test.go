package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"sync"

	ddd "github.com/bytedance/dddfirework"
)

// demoWorld records what a run does to its collaborators, and fails on request.
type demoWorld struct {
	mu   sync.Mutex
	log  []string
	fail map[string]error
	rows map[string]string // id -> parent/text
	acts []*ddd.Action
	ids  int
}

func newWorld() *demoWorld { return &demoWorld{fail: map[string]error{}, rows: map[string]string{}} }

func (w *demoWorld) add(format string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.log = append(w.log, fmt.Sprintf(format, a...))
}
func (w *demoWorld) err(what string) error { return w.fail[what] }
func (w *demoWorld) has(s string) bool     { return w.index(s) >= 0 }
func (w *demoWorld) index(s string) int {
	for i, l := range w.log {
		if l == s {
			return i
		}
	}
	return -1
}

type ctxKey string

// executor
func (w *demoWorld) Begin(ctx context.Context) (context.Context, error) {
	w.add("begin")
	return context.WithValue(ctx, ctxKey("tx"), 1), w.err("begin")
}
func (w *demoWorld) Commit(ctx context.Context) error {
	w.add("commit tx=%v", ctx.Value(ctxKey("tx")))
	return w.err("commit")
}
func (w *demoWorld) RollBack(ctx context.Context) error {
	w.add("rollback tx=%v", ctx.Value(ctxKey("tx")))
	return w.err("rollback")
}

type demoModel struct {
	ID, Parent, Text string
}

func (m *demoModel) GetID() string { return m.ID }

type demoEventModel struct{ ID string }

func (m *demoEventModel) GetID() string { return m.ID }

func (w *demoWorld) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	if op != ddd.OpQuery {
		w.add("convert %d %s", op, e.GetID())
	}
	if err := w.err("convert " + e.GetID()); err != nil {
		return nil, err
	}
	m := &demoModel{ID: e.GetID()}
	if parent != nil {
		m.Parent = parent.GetID()
	}
	if t, ok := e.(*demoEnt); ok {
		m.Text = t.Text
	}
	return m, nil
}
func (w *demoWorld) Model2Entity(m ddd.IModel, e ddd.IEntity) error {
	mm := m.(*demoModel)
	e.SetID(mm.ID)
	if t, ok := e.(*demoEnt); ok {
		t.Text = mm.Text
	}
	return w.err("model2entity")
}
func (w *demoWorld) Exec(ctx context.Context, a *ddd.Action) error {
	w.acts = append(w.acts, a)
	for _, m := range a.Models {
		w.add("exec %d %s", a.Op, m.GetID())
	}
	if a.Op == ddd.OpQuery {
		w.add("query")
		q := a.Query.(*demoModel)
		out := a.QueryResult.(*[]*demoModel)
		for id, p := range w.rows {
			if q.ID == id || q.Parent == p && q.ID == "" {
				*out = append(*out, &demoModel{ID: id, Parent: p})
			}
		}
	}
	return w.err(fmt.Sprintf("exec %d", a.Op))
}

// locker
func (w *demoWorld) Lock(ctx context.Context, key string) (interface{}, error) {
	w.add("lock %s", key)
	if err := w.err("lock " + key); err != nil {
		return nil, err
	}
	return key, nil
}
func (w *demoWorld) UnLock(ctx context.Context, l interface{}) error {
	w.add("unlock %v", l)
	return nil
}

// id generator
func (w *demoWorld) NewID() (string, error) {
	w.ids++
	w.add("newid")
	if err := w.err("newid"); err != nil {
		return "", err
	}
	return fmt.Sprintf("id%d", w.ids), nil
}

// transactional bus
type demoBus struct {
	w   *demoWorld
	cb  ddd.DomainEventHandler
	tx  ddd.DomainEventTXChecker
	out []*ddd.DomainEvent
}

func (b *demoBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	for _, e := range evts {
		b.w.add("dispatch %s", e.Type)
	}
	b.out = append(b.out, evts...)
	return b.w.err("dispatch")
}
func (b *demoBus) RegisterEventHandler(cb ddd.DomainEventHandler)     { b.cb = cb }
func (b *demoBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) { b.tx = cb }
func (b *demoBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	for _, e := range evts {
		b.w.add("announce %s", e.Type)
	}
	return context.WithValue(ctx, ctxKey("msg"), 1), b.w.err("announce")
}
func (b *demoBus) Commit(ctx context.Context) error {
	b.w.add("buscommit msg=%v", ctx.Value(ctxKey("msg")))
	return nil
}
func (b *demoBus) Rollback(ctx context.Context) error {
	b.w.add("busrollback msg=%v", ctx.Value(ctxKey("msg")))
	return nil
}

type demoEnt struct {
	ddd.BaseEntity
	Text  string
	Items []*demoEnt
	More  []*demoEnt
	kids  map[string][]ddd.IEntity
	hook  func(string) error
}

func (e *demoEnt) GetChildren() map[string][]ddd.IEntity {
	if e.kids != nil {
		return e.kids
	}
	m := map[string][]ddd.IEntity{}
	for _, i := range e.Items {
		m["items"] = append(m["items"], i)
	}
	for _, i := range e.More {
		m["more"] = append(m["more"], i)
	}
	return m
}
func (e *demoEnt) call(n string) error {
	if e.hook == nil {
		return nil
	}
	return e.hook(n)
}
func (e *demoEnt) BeforeCreate(context.Context) error { return e.call("before create") }
func (e *demoEnt) AfterCreate(context.Context) error  { return e.call("after create") }
func (e *demoEnt) BeforeUpdate(context.Context) error { return e.call("before update") }
func (e *demoEnt) AfterUpdate(context.Context) error  { return e.call("after update") }
func (e *demoEnt) BeforeDelete(context.Context) error { return e.call("before delete") }
func (e *demoEnt) AfterDelete(context.Context) error  { return e.call("after delete") }

func ent(id string, items ...*demoEnt) *demoEnt {
	return &demoEnt{BaseEntity: ddd.NewBase(id), Items: items}
}

type demoEvt struct{ Type, Sender string }

func (e *demoEvt) GetType() ddd.EventType { return ddd.EventType(e.Type) }
func (e *demoEvt) GetSender() string      { return e.Sender }

func engine(w *demoWorld, opts ...ddd.Option) (*ddd.Engine, *demoBus) {
	b := &demoBus{w: w}
	return ddd.NewEngine(w, w, append([]ddd.Option{ddd.WithEventBus(b), ddd.WithIDGenerator(w)}, opts...)...), b
}

var errDemo = errors.New("demo failure")
