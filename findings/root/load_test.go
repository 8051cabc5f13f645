package dddfirework

import (
	"context"
	"errors"
	"testing"
)

type zlEnt struct {
	BaseEntity
	Kids []*zlKid
}
type zlKid struct{ BaseEntity }

func (e *zlEnt) GetChildren() map[string][]IEntity {
	var r []IEntity
	for _, k := range e.Kids {
		r = append(r, k)
	}
	return map[string][]IEntity{"k": r}
}

type zlRow struct{ ID string }

func (r *zlRow) GetID() string { return r.ID }

type zlExec struct {
	q      int
	writes []OpType
	failAt int
}

func (x *zlExec) Entity2Model(entity, parent IEntity, op OpType) (IModel, error) {
	if op == OpQuery {
		x.q++
		if x.q == x.failAt {
			return nil, errors.New("convert failed")
		}
	}
	return &zlRow{ID: entity.GetID()}, nil
}
func (x *zlExec) Model2Entity(m IModel, e IEntity) error { e.SetID(m.(*zlRow).ID); return nil }
func (x *zlExec) Begin(ctx context.Context) (context.Context, error) { return ctx, nil }
func (x *zlExec) Commit(ctx context.Context) error   { return nil }
func (x *zlExec) RollBack(ctx context.Context) error { return nil }
func (x *zlExec) Exec(ctx context.Context, a *Action) error {
	if a.Op != OpQuery {
		x.writes = append(x.writes, a.Op)
		return nil
	}
	*(a.QueryResult.(*[]*zlRow)) = []*zlRow{{ID: "1"}}
	return nil
}

func TestZLNothingAdded(t *testing.T) {
	for failAt := 1; failAt <= 4; failAt++ {
		x := &zlExec{failAt: failAt}
		r := NewEngine(nil, x).Run(context.Background(), func(ctx context.Context, repo *Repository) error {
			e := &zlEnt{BaseEntity: NewBase("1")}
			_ = repo.Get(ctx, e, &e.Kids)
			return nil
		})
		if len(x.writes) > 0 || r.Error != nil {
			t.Errorf("failAt %d: writes %v err %v", failAt, x.writes, r.Error)
		}
	}
}

func TestZLShapes(t *testing.T) {
	var ks *[]*zlKid
	var kp **zlKid
	var k *zlKid
	var is []IEntity
	for i, d := range []interface{}{nil, &is, ks, kp, k} {
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Errorf("%d panics: %v", i, p)
				}
			}()
			x := &zlExec{}
			NewEngine(nil, x).Run(context.Background(), func(ctx context.Context, repo *Repository) error {
				e := &zlEnt{BaseEntity: NewBase("1")}
				if err := repo.Get(ctx, e, d); err == nil {
					t.Errorf("%d no error", i)
				}
				return nil
			})
		}()
	}
}

type ZfAudit struct {
	*BaseEntity
	By string
}
type zfEnt struct {
	ZfAudit
	Name string
}
func TestZLEmbeddedBase(t *testing.T) {
	x := &zlExec{}
	e := &zfEnt{ZfAudit: ZfAudit{BaseEntity: &BaseEntity{}}}
	r := NewEngine(nil, x).Run(context.Background(), func(ctx context.Context, repo *Repository) error {
		repo.Add(e); return nil
	})
	if r.Error != nil || len(x.writes) != 1 {
		t.Error(r.Error, x.writes)
	}
}
