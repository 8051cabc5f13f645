package dddfirework

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/bytedance/dddfirework/testsuit"
	"github.com/stretchr/testify/assert"
)

func newEng(opts ...Option) (*Engine, *TestDB) {
	db := &TestDB{Data: map[string]*testModel{}}
	return NewEngine(testsuit.NewMemLock(), &MapExecutor{DB: db}, opts...), db
}

// F2
func TestDefectAddThenGet(t *testing.T) {
	ctx := context.Background()
	e, db := newEng()
	other := &order{Title: "other"}
	assert.NoError(t, e.Create(ctx, other).Error)
	o := &order{Title: "new"}
	res := e.Run(ctx, func(ctx context.Context, repo *Repository) error {
		repo.Add(o)
		return repo.Get(ctx, &order{BaseEntity: NewBase(other.GetID())})
	})
	assert.NoError(t, res.Error)
	assert.NotEmpty(t, o.GetID())
	assert.Contains(t, db.Data, o.GetID())
}
func TestDefectRemoveThenGet(t *testing.T) {
	ctx := context.Background()
	e, db := newEng()
	a, b := &order{Title: "a"}, &order{Title: "b"}
	assert.NoError(t, e.Create(ctx, a, b).Error)
	res := e.Run(ctx, func(ctx context.Context, repo *Repository) error {
		ra := &order{BaseEntity: NewBase(a.GetID())}
		if err := repo.Get(ctx, ra); err != nil {
			return err
		}
		repo.Remove(ra)
		return repo.Get(ctx, &order{BaseEntity: NewBase(b.GetID())})
	})
	assert.NoError(t, res.Error)
	assert.NotContains(t, db.Data, a.GetID())
}

// F3
func TestDefectMove3(t *testing.T) {
	ctx := context.Background()
	e, _ := newEng()
	ps := []*product{}
	for i := 0; i < 3; i++ {
		ps = append(ps, &product{BaseEntity: NewBase(fmt.Sprint("p", i))})
	}
	o1, o2 := &order{Title: "o1", Products: ps}, &order{Title: "o2"}
	assert.NoError(t, e.Create(ctx, o1, o2).Error)
	res := e.Run(ctx, func(ctx context.Context, repo *Repository) error {
		if err := repo.CustomGet(ctx, func(ctx context.Context, root ...IEntity) {}, o1, o2); err != nil {
			return err
		}
		o1.Products = nil
		o2.Products = ps
		return nil
	})
	assert.NoError(t, res.Error)
	assert.Len(t, res.Actions, 1)
}

// F4
type dupCmd struct{ Command }

func (c *dupCmd) Act(ctx context.Context, container RootContainer, roots ...IEntity) error {
	container.Remove(&order{BaseEntity: NewBase("nope")})
	return nil
}
func TestDefectContainerErr(t *testing.T) {
	e, _ := newEng()
	assert.Error(t, e.Run(context.Background(), &dupCmd{}).Error)
}

// F5
func TestDefectHooksAlias(t *testing.T) {
	nop := func(ctx context.Context, r *Result) {}
	e, _ := newEng(WithPostSave(nop), WithPostSave(nop), WithPostSave(nop))
	ctx := context.Background()
	got := ""
	a := e.NewStage().WithOption(WithPostSave(func(ctx context.Context, r *Result) { got += "a" }))
	b := e.NewStage().WithOption(WithPostSave(func(ctx context.Context, r *Result) { got += "b" }))
	_ = b
	a.Main(func(ctx context.Context, repo *Repository) error { return nil }).Save(ctx)
	assert.Equal(t, "a", got)
}

// F6
type lockedLock struct{}

func (lockedLock) Lock(ctx context.Context, key string) (interface{}, error) { return nil, ErrEntityLocked }
func (lockedLock) UnLock(ctx context.Context, l interface{}) error           { return nil }
func TestDefectErrIdentity(t *testing.T) {
	e := NewEngine(lockedLock{}, &MapExecutor{DB: &TestDB{Data: map[string]*testModel{}}})
	res := e.NewStage().Lock("a").Main(func(ctx context.Context, repo *Repository) error { return nil }).Save(context.Background())
	assert.True(t, errors.Is(res.Error, ErrEntityLocked))
}

// F7
func TestDefectChecker(t *testing.T) {
	RegisterEventTXChecker("intchk", func(evt *DomainEvent) int { return 1 })
	assert.NotPanics(t, func() { assert.Equal(t, TXCommit, onTXChecker(&DomainEvent{Type: "intchk"})) })
}

// F8
type bag struct {
	BaseEntity
	kids map[string][]IEntity
}

func (b *bag) GetChildren() map[string][]IEntity { return b.kids }
func TestDefectMissingKey(t *testing.T) {
	ctx := context.Background()
	e, db := newEng()
	b := &bag{kids: map[string][]IEntity{"x": {&product{BaseEntity: NewBase("kx")}}, "y": {&product{BaseEntity: NewBase("ky")}}}}
	assert.NoError(t, e.Create(ctx, b).Error)
	assert.Contains(t, db.Data, "kx")
	res := e.Run(ctx, func(ctx context.Context, repo *Repository) error {
		if err := repo.CustomGet(ctx, func(ctx context.Context, root ...IEntity) {}, b); err != nil {
			return err
		}
		delete(b.kids, "x")
		return nil
	})
	assert.NoError(t, res.Error)
	assert.NotContains(t, db.Data, "kx")
}

// F1
type wrapExec struct{ MapExecutor }

func (f *wrapExec) Entity2Model(entity, parent IEntity, op OpType) (IModel, error) {
	if _, ok := entity.(*EntityContainer); ok {
		return nil, fmt.Errorf("wrap: %w", ErrEntityNotRegister)
	}
	return f.MapExecutor.Entity2Model(entity, parent, op)
}
func TestDefectWrapped(t *testing.T) {
	e := NewEngine(nil, &wrapExec{MapExecutor{DB: &TestDB{Data: map[string]*testModel{}}}})
	o := &order{Title: "x"}
	assert.NoError(t, e.Run(context.Background(), func(ctx context.Context, repo *Repository) error {
		repo.Add(o)
		return repo.Save(ctx)
	}).Error)
}
