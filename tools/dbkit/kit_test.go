package PKGNAME

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	glog "gorm.io/gorm/logger"
)

// demoDB is an in-memory database that records its statements and fails some on request.
type demoDB struct {
	*gorm.DB
	mu   sync.Mutex
	log  []string
	fail func(stmt string) error // stmt: "op table"
	hook func(stmt string)
}

var demoN int

func openDB(t *testing.T, models ...interface{}) *demoDB {
	demoN++
	db, err := gorm.Open(sqlite.Open(fmt.Sprintf("file:demo%d?mode=memory&cache=shared", demoN)), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		t.Fatal(err)
	}
	sdb, _ := db.DB()
	t.Cleanup(func() { sdb.Close() })
	for _, m := range models {
		if sql, ok := m.(string); ok {
			err = db.Exec(sql).Error
		} else {
			err = db.AutoMigrate(m)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	d := &demoDB{DB: db}
	before := func(op string) func(*gorm.DB) {
		return func(tx *gorm.DB) {
			what := op + " " + tx.Statement.Table
			d.mu.Lock()
			f, h := d.fail, d.hook
			d.mu.Unlock()
			if h != nil {
				h(what)
			}
			if f != nil {
				if err := f(what); err != nil {
					_ = tx.AddError(err)
				}
			}
		}
	}
	after := func(op string) func(*gorm.DB) {
		return func(tx *gorm.DB) {
			s := op + " " + tx.Statement.Table
			if _, ok := tx.Statement.Clauses["FOR"]; ok {
				s += " forupdate"
			}
			if _, ok := tx.Statement.ConnPool.(gorm.TxCommitter); ok {
				s += " intx"
			}
			d.mu.Lock()
			d.log = append(d.log, s+" | "+tx.Dialector.Explain(tx.Statement.SQL.String(), tx.Statement.Vars...))
			d.mu.Unlock()
		}
	}
	c := db.Callback()
	c.Create().Clauses = []string{"INSERT", "VALUES", "ON CONFLICT"}
	_ = c.Create().Replace("gorm:create", callbacks.Create(&callbacks.Config{LastInsertIDReversed: true, CreateClauses: c.Create().Clauses}))
	_ = c.Create().Before("gorm:create").Register("d:bc", before("create"))
	_ = c.Query().Before("gorm:query").Register("d:bq", before("query"))
	_ = c.Update().Before("gorm:update").Register("d:bu", before("update"))
	_ = c.Delete().Before("gorm:delete").Register("d:bd", before("delete"))
	_ = c.Row().Before("gorm:row").Register("d:br", before("rows"))
	_ = c.Create().After("gorm:create").Register("d:ac", after("create"))
	_ = c.Query().After("gorm:query").Register("d:aq", after("query"))
	_ = c.Update().After("gorm:update").Register("d:au", after("update"))
	_ = c.Delete().After("gorm:delete").Register("d:ad", after("delete"))
	_ = c.Row().After("gorm:row").Register("d:ar", after("rows"))
	return d
}

func (d *demoDB) failing(f func(stmt string) error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.fail = f
}

func (d *demoDB) reset() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.log = nil
}

// logged returns the recorded statements that start with the prefix.
func (d *demoDB) logged(prefix string) []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []string
	for _, l := range d.log {
		if strings.HasPrefix(l, prefix) {
			out = append(out, l)
		}
	}
	return out
}

func (d *demoDB) count(t *testing.T, model interface{}, where ...interface{}) int64 {
	var n int64
	q := d.Session(&gorm.Session{NewDB: true}).Model(model)
	if len(where) > 0 {
		q = q.Where(where[0], where[1:]...)
	}
	if err := q.Count(&n).Error; err != nil {
		t.Fatal(err)
	}
	return n
}

var errDemo = fmt.Errorf("demo failure")
