def H(pkg,*imports):
    return 'package %s\n\nimport (\n%s)\n\n'%(pkg,''.join('\t%s\n'%(i if ' ' in i else '"%s"'%i) for i in imports))
BUS=dict(kit='dbkit',pkg='eventbus/mysql',name='mysql')
EXE=dict(kit='dbkit',pkg='executor/mysql',name='mysql')
TIM=dict(kit='dbkit',pkg='d_timer/sql',name='sql')
LCK=dict(kit='dbkit',pkg='lock/db',name='db')
B=H('mysql','context','testing','time','ddd "github.com/bytedance/dddfirework"','gorm.io/gorm')+'''
var _ = time.Now
var _ context.Context
var _ gorm.DB

func evt(id, sender string, at time.Time) *ddd.DomainEvent {
	return &ddd.DomainEvent{ID: id, Type: "t", Sender: sender, SendType: ddd.SendTypeNormal, Payload: []byte("{}"), CreatedAt: at}
}

func bus(t *testing.T, d *demoDB, service string, opts ...Option) *EventBus {
	return NewEventBus(service, d.DB, opts...)
}

func models() []interface{} {
	return []interface{}{&EventPO{}, &ServicePO{}, &Transaction{},
		"create table ddd_domain_service_event (id integer primary key autoincrement, service text, event_id integer, retry_count integer, status integer, failed_message text, event_created_at datetime, next_time datetime, run_at datetime, unique(service, event_id))"}
}

'''
SEEDS=[
dict(BUS,id='bus-clean-onlypending',property='C35',needs='an event whose delivery of another service has failed (not pending) when the own one is cleaned',
 breaks='a failed delivery of another service no longer keeps the event row, so its event is deleted under it',
 edits=[('eventbus/mysql/eventbus.go','''			Where("event_id in ?", eventIDs).
			Group(''','''			Where("event_id in ?", eventIDs).Where("status = ?", ServiceEventStatusInit).
			Group(''')],
 demo=B+'''
func TestDemo(t *testing.T) {
	for _, other := range []ServiceEventStatus{ServiceEventStatusInit, ServiceEventStatusFailed, ServiceEventStatusSuccess} {
		d := openDB(t, models()...)
		a, _ := bus(t, d, "a"), bus(t, d, "b")
		if err := a.Dispatch(context.Background(), evt("e1", "s", time.Now().Add(-100*time.Hour))); err != nil {
			t.Fatal(err)
		}
		d.Model(&ServiceEventPO{}).Where("service = ?", "a").Update("status", ServiceEventStatusSuccess)
		d.Model(&ServiceEventPO{}).Where("service = ?", "b").Update("status", other)
		if err := a.cleanEvents(); err != nil {
			t.Skip("the database does not support this: ", err)
		}
		if d.count(t, &ServiceEventPO{}, "service = ?", "b") != 1 || d.count(t, &ServiceEventPO{}, "service = ?", "a") != 0 {
			t.Fatal("deliveries")
		}
		if d.count(t, &EventPO{}) != 1 {
			t.Fatalf("event deleted although the delivery of b (%d) refers to it", other)
		}
	}
}
'''),
dict(BUS,id='bus-commit-loses',property='C30',needs='dispatching fails while a transactional message is committed',
 breaks='the record is removed although the events were not stored, so the message is lost',
 edits=[('eventbus/mysql/eventbus.go','''		err := e.Dispatch(ctx, tx.Events...)
		if err != nil {
			return err
		}
''','''		if err := e.Dispatch(ctx, tx.Events...); err != nil {
			e.logger.Error(err, "dispatch transaction events failed")
		}
''')],
 demo=B+'''
func TestDemo(t *testing.T) {
	d := openDB(t, models()...)
	a := bus(t, d, "a")
	ctx, err := a.DispatchBegin(context.Background(), evt("e1", "s", time.Now()))
	if err != nil {
		t.Fatal(err)
	}
	d.failing(func(s string) error {
		if s == "create ddd_domain_event" {
			return errDemo
		}
		return nil
	})
	err = a.Commit(ctx)
	d.failing(nil)
	if d.count(t, &EventPO{}) == 0 && d.count(t, &Transaction{}) == 0 {
		t.Fatal("message lost", err)
	}
	if err == nil {
		t.Fatal("error lost")
	}
	if err := a.Commit(ctx); err != nil || d.count(t, &EventPO{}) != 1 || d.count(t, &Transaction{}) != 0 {
		t.Fatal("second commit", err)
	}
}
'''),
dict(BUS,id='bus-tx-anyservice',property='C30',needs='two services with overdue transactional messages in one database',
 breaks='a service resolves the overdue messages of other services with its own checker',
 edits=[('eventbus/mysql/eventbus.go','''			"service = ? and due_time < ?", e.serviceName, time.Now(),
''','''			"due_time < ?", time.Now(),
''')],
 demo=B+'''
func TestDemo(t *testing.T) {
	d := openDB(t, models()...)
	a, b := bus(t, d, "a", func(o *Options) { o.TXCheckTimeout = -time.Hour }), bus(t, d, "b")
	b.RegisterEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus { return ddd.TXRollBack })
	if _, err := a.DispatchBegin(context.Background(), evt("e1", "s", time.Now())); err != nil {
		t.Fatal(err)
	}
	if err := b.handleTransactions(); err != nil {
		t.Fatal(err)
	}
	if d.count(t, &Transaction{}) != 1 {
		t.Fatal("b resolved the message of a")
	}
}
'''),
dict(BUS,id='bus-fifo-otherservice',property='C32',needs='a FIFO event whose predecessor was handled by another service but not by this one',
 breaks='the predecessor is judged by the delivery of any service',
 edits=[('eventbus/mysql/eventbus.go','''	if err := tx.Where("service = ?", e.serviceName).
		Where("event_id = ?", precedingEvent.ID).
		First(precedingServiceEvent)''','''	if err := tx.Where("event_id = ?", precedingEvent.ID).
		First(precedingServiceEvent)''')],
 demo=B+'''
func TestDemo(t *testing.T) {
	d := openDB(t, models()...)
	_ = bus(t, d, "a")
	b := bus(t, d, "b")
	n := 0
	b.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error { n++; return nil })
	now := time.Now()
	e1, e2 := evt("e1", "s", now.Add(-time.Minute)), evt("e2", "s", now)
	e1.SendType, e2.SendType = ddd.SendTypeFIFO, ddd.SendTypeFIFO
	if err := b.Dispatch(context.Background(), e1, e2); err != nil {
		t.Fatal(err)
	}
	d.Model(&ServiceEventPO{}).Where("service = ?", "a").Update("status", ServiceEventStatusSuccess)
	po, spo := &EventPO{}, &ServiceEventPO{}
	d.Where("event_id = ?", "e2").First(po)
	d.Where("service = ? and event_id = ?", "b", po.ID).First(spo)
	_ = b.handleEvent(context.Background(), po, spo, 1)
	if n != 0 {
		t.Fatal("handled before its predecessor")
	}
}
'''),
dict(BUS,id='bus-retry-samecount',property='C33',needs='a custom retry policy that grants a retry without raising the count',
 breaks='the granted retry is turned into a failure',
 edits=[('eventbus/mysql/eventbus.go','''	if newInfo != nil {
		spo.RetryCount''','''	if newInfo != nil && newInfo.RetryCount > spo.RetryCount {
		spo.RetryCount''')],
 demo=B+'''
type forever struct{}

func (forever) Next(i *RetryInfo) *RetryInfo {
	return &RetryInfo{ID: i.ID, RetryCount: 1, RetryTime: time.Now().Add(time.Hour)}
}
func (forever) RetryCount() int { return 1 }

func TestDemo(t *testing.T) {
	d := openDB(t, models()...)
	a := bus(t, d, "a", func(o *Options) { o.RetryStrategy = forever{} })
	spo := &ServiceEventPO{}
	for i := 0; i < 3; i++ {
		a.doRetryStrategy(spo)
		if spo.Status != ServiceEventStatusInit || spo.RetryCount != 1 || spo.NextTime.Before(time.Now().Add(time.Minute)) {
			t.Fatal("a granted retry was not recorded", i, spo.Status)
		}
	}
}
'''),
dict(BUS,id='bus-notx-handle',property='C31',needs='the handler of an event uses the outcome: saving the delivery fails after the handler ran',
 breaks='the outcome is saved outside the transaction that holds the row lock',
 edits=[('eventbus/mysql/eventbus.go','''			if err = tx.Save(spo).Error; err != nil {''','''			if err = e.db.Save(spo).Error; err != nil {''')],
 demo=B+'''
func TestDemo(t *testing.T) {
	d := openDB(t, models()...)
	a := bus(t, d, "a")
	a.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error { return nil })
	if err := a.Dispatch(context.Background(), evt("e1", "s", time.Now())); err != nil {
		t.Fatal(err)
	}
	po, spo := &EventPO{}, &ServiceEventPO{}
	d.First(po)
	d.First(spo)
	d.reset()
	if err := a.handleEvent(context.Background(), po, spo, 1); err != nil {
		t.Fatal(err)
	}
	if len(d.logged("query ddd_domain_service_event forupdate intx")) != 1 || len(d.logged("update ddd_domain_service_event intx")) != 1 {
		t.Fatal("not in one transaction", d.log)
	}
}
'''),
dict(TIM,id='timer-rerun',property='C37',needs='another instance finishes the job between the scan and the row lock',
 breaks='the job is run again because the locked row is not checked for its status',
 edits=[('d_timer/sql/timer.go','''				"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,
''','''				"service = ? and next_time <= ? and id = ?", t.service, time.Now(), job.ID,
''')],
 demo=H('sql','context','testing','time')+'''
func TestDemo(t *testing.T) {
	d := openDB(t, &TimerJob{})
	tm := NewDBTimer("s", d.DB)
	n := 0
	tm.RegisterTimerHandler(func(ctx context.Context, key, cron string, data []byte) error {
		n++
		// the other job is finished by another instance meanwhile
		tx := d.Session(nil2())
		_ = tx
		return nil
	})
	for _, k := range []string{"a", "b"} {
		if err := tm.RunOnce(k, time.Now().Add(20*time.Millisecond), nil); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(50 * time.Millisecond)
	q := 0
	d.hook = func(s string) {
		if s == "query ddd_timer" {
			if q++; q == 2 {
				d.hook = nil
				sdb, _ := d.DB.DB()
				if _, err := sdb.Exec("update ddd_timer set status = 2"); err != nil {
					t.Log(err)
				}
			}
		}
	}
	if err := tm.handleJobs(context.Background()); err != nil {
		t.Fatal(err)
	}
	if n != 0 {
		t.Fatalf("%d finished jobs were run again", n)
	}
}
'''.replace('''		// the other job is finished by another instance meanwhile
		tx := d.Session(nil2())
		_ = tx
''','')),
dict(TIM,id='timer-stopatfail',property='C37',needs='two due jobs, and saving the first one fails',
 breaks='the other due jobs of the round are not run',
 edits=[('d_timer/sql/timer.go','''			t.logger.Error(err, "save timer job failed", "jobID", job.ID)
''','''			t.logger.Error(err, "save timer job failed", "jobID", job.ID)
			return err
''')],
 demo=H('sql','context','testing','time')+'''
func TestDemo(t *testing.T) {
	d := openDB(t, &TimerJob{})
	tm := NewDBTimer("s", d.DB)
	n := 0
	tm.RegisterTimerHandler(func(ctx context.Context, key, cron string, data []byte) error { n++; return nil })
	for _, k := range []string{"a", "b", "c"} {
		if err := tm.RunOnce(k, time.Now().Add(20*time.Millisecond), nil); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(50 * time.Millisecond)
	d.failing(func(s string) error {
		if s == "update ddd_timer" {
			return errDemo
		}
		return nil
	})
	_ = tm.handleJobs(context.Background())
	if n != 3 {
		t.Fatalf("%d of 3 due jobs were run", n)
	}
}
'''),
dict(LCK,id='lock-lostrace',property='C23',needs='two instances take over the same expired lock at the same time',
 breaks='both get the lock: an update that hit no row is taken for a grant',
 edits=[('lock/db/sql.go','''	if res.RowsAffected == 0 {
		// resource updated by others
		return nil, dddfirework.ErrEntityLocked
	}
''','''	if res.RowsAffected == 0 {
		// resource updated by others
		r.logger.Info("resource lock taken over", "resource", key)
	}
''')],
 demo=H('db','context','testing','time')+'''
func TestDemo(t *testing.T) {
	d := openDB(t, &ResourceLock{})
	l := NewDBLock(d.DB, time.Second, func(o *Options) { o.Retry = false })
	d.Create(&ResourceLock{Resource: "k", LockerID: "old"})
	d.Model(&ResourceLock{}).Where("1=1").UpdateColumn("updated_at", time.Now().Add(-time.Hour))
	d.hook = func(s string) {
		if s == "update resource_lock" {
			d.hook = nil
			d.Exec("update resource_lock set locker_id = 'other', updated_at = ?", time.Now())
		}
	}
	g, err := l.Lock(context.Background(), "k")
	if err == nil || g != nil {
		t.Fatal("granted although another instance took the lock", g, err)
	}
}
'''),
dict(LCK,id='lock-retryany',property='C23',needs='a database error while the lock is read',
 breaks='every error is retried, not only the locked one',
 edits=[('lock/db/sql.go','''			return err == dddfirework.ErrEntityLocked
''','''			return err != nil
''')],
 demo=H('db','context','testing','time')+'''
func TestDemo(t *testing.T) {
	d := openDB(t, &ResourceLock{})
	l := NewDBLock(d.DB, time.Second)
	n := 0
	d.failing(func(s string) error { n++; return errDemo })
	if _, err := l.Lock(context.Background(), "k"); err == nil {
		t.Fatal("error lost")
	}
	if n != 1 {
		t.Fatalf("a database error was tried %d times", n)
	}
}
'''),
dict(EXE,id='exec-update-stops',property='C28',needs='an update action whose first model does not differ from its previous one while a later one does',
 breaks='the models after an unchanged one are not written',
 edits=[('executor/mysql/executor.go','''				if len(fields) == 0 {
					continue
				}
''','''				if len(fields) == 0 {
					break
				}
''')],
 demo=H('mysql','context','testing','ddd "github.com/bytedance/dddfirework"')+'''
type row struct {
	ID   string `gorm:"primaryKey"`
	Text string
}

func (r *row) GetID() string     { return r.ID }
func (r *row) TableName() string { return "demo_row" }

func TestDemo(t *testing.T) {
	d := openDB(t, &row{})
	d.Create([]*row{{"1", "a"}, {"2", "b"}, {"3", "c"}})
	e := NewExecutor(d.DB)
	err := e.Exec(context.Background(), &ddd.Action{Op: ddd.OpUpdate,
		Models:     []ddd.IModel{&row{"1", "x"}, &row{"2", "b"}, &row{"3", "z"}},
		PrevModels: []ddd.IModel{&row{"1", "a"}, &row{"2", "b"}, &row{"3", "c"}}})
	if err != nil {
		t.Fatal(err)
	}
	var rows []*row
	d.Order("id").Find(&rows)
	if rows[0].Text != "x" || rows[1].Text != "b" || rows[2].Text != "z" {
		t.Fatal("not all models were written", rows[0], rows[1], rows[2])
	}
}
'''),
dict(EXE,id='exec-begin-fresh',property='C27',needs='a caller that puts values or a deadline in the context of the run',
 breaks='the transaction context replaces the caller context',
 edits=[('executor/mysql/executor.go','''	return context.WithValue(ctx, e.txKey, tx), nil
''','''	return context.WithValue(context.Background(), e.txKey, tx), nil
''')],
 demo=H('mysql','context','testing')+'''
type k string

func TestDemo(t *testing.T) {
	d := openDB(t)
	e := NewExecutor(d.DB)
	ctx, err := e.Begin(context.WithValue(context.Background(), k("a"), 1))
	if err != nil {
		t.Fatal(err)
	}
	defer e.RollBack(ctx)
	if ctx.Value(k("a")) != 1 {
		t.Fatal("caller context lost")
	}
}
'''),
]
