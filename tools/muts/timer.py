f='d_timer/sql/timer.go'
p='d_timer/sql/model.go'
m='eventbus/mem/eventbus.go'
def R(name,old,new,*more): return (name,f,old,new)+more
M=[
# C36
R('c-empty','	if cronExp == "" {\n		return ErrCronEmpty\n	}\n',''),
R('c-nocron','		Cron:    cronExp,\n',''),
R('ok-eq-c-nostatus','		Payload: data,\n		Status:  TimerToRun,\n	}\n	return t.run','		Payload: data,\n	}\n	return t.run'),
R('o-nostatus','		Payload:  data,\n		Status:   TimerToRun,\n','		Payload:  data,\n'),
R('o-overdue','	if runTime.Before(time.Now()) {\n		return ErrTimerOverdue\n	}\n\n',''),
R('o-after','runTime.Before(time.Now())','runTime.After(time.Now())'),
R('o-nilret','		return ErrTimerOverdue\n	}\n\n	newTimer','		return nil\n	}\n\n	newTimer'),
R('o-time','		NextTime: runTime,','		NextTime: time.Now(),'),
R('o-time2','		NextTime: runTime,','		NextTime: runTime.Add(t.opt.RunInterval),'),
R('ok-eq-c-service','		Service: t.service,\n		Key:     key,\n		Cron','		Key:     key,\n		Cron'),
R('c-payload','		Payload: data,\n		Status:  TimerToRun,\n	}\n	return t.run','		Status:  TimerToRun,\n	}\n	return t.run'),
R('x-all','Where(map[string]interface{}{"service": t.service, "key": key}).Delete','Where(map[string]interface{}{"key": key}).Delete'),
R('x-struct','Where(map[string]interface{}{"service": t.service, "key": key}).Delete','Where(&TimerJob{Service: t.service, Key: key}).Delete'),
R('x-err','	return t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error','	t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{})\n	return nil'),
R('x-svc','"service": t.service, "key": key}).Delete','"service": key, "key": key}).Delete'),
R('x-mark','Delete(&TimerJob{}).Error','Model(&TimerJob{}).Update("status", TimerFinished).Error'),
R('r-assign','.Attrs(job)','.Assign(job)'),
R('r-create','t.db.Where(map[string]interface{}{"service": t.service, "key": job.Key}).Attrs(job).FirstOrCreate(&TimerJob{}).Error','t.db.Create(job).Error'),
R('r-save','t.db.Where(map[string]interface{}{"service": t.service, "key": job.Key}).Attrs(job).FirstOrCreate(&TimerJob{}).Error','t.db.Save(job).Error'),
R('r-key','map[string]interface{}{"service": t.service, "key": job.Key}).Attrs','map[string]interface{}{"key": job.Key}).Attrs'),
R('r-onlysvc','map[string]interface{}{"service": t.service, "key": job.Key}).Attrs','map[string]interface{}{"service": t.service}).Attrs'),
R('ok-eq-r-noattrs','.Attrs(job).FirstOrCreate(&TimerJob{})','.FirstOrCreate(job)'),
R('r-reset','	if err := job.Reset(); err != nil {\n		return err\n	}\n	// 用','	// 用'),
R('r-reseterr','	if err := job.Reset(); err != nil {\n		return err\n	}\n	// 用','	_ = job.Reset()\n	// 用'),
R('r-dberr','	return t.db.Where(map[string]interface{}{"service": t.service, "key": job.Key}).Attrs(job).FirstOrCreate(&TimerJob{}).Error','	if err := t.db.Where(map[string]interface{}{"service": t.service, "key": job.Key}).Attrs(job).FirstOrCreate(&TimerJob{}).Error; err != nil {\n		t.logger.Error(err, "create timer failed")\n	}\n	return nil'),
('r-iszero',p,'	if next.IsZero() {','	if false {'),
('r-closenever',p,'		return ErrTimerOverdue\n','		return nil\n'),
('r-nonext',p,'	t.NextTime = next\n','	_ = next\n'),
('r-nextfrom',p,'scheduler.Next(time.Now())','scheduler.Next(t.NextTime)'),
('r-parseerr',p,'		t.Close(err)\n		return err\n	}\n\n	next','		t.Close(err)\n		return nil\n	}\n\n	next'),
('r-index',p,'uniqueIndex:idx_ddd_timer_service_key,priority:2','index:idx_ddd_timer_key'),
('r-index2',p,'uniqueIndex:idx_ddd_timer_service_key,priority:2','uniqueIndex'),
# C37
('n-once',p,'		t.Close(nil)\n		return nil\n','		return nil\n'),
('n-close',p,'		t.Status = TimerFinished\n	} else','	} else'),
('n-closefail',p,'		t.Status = TimerFailed\n		t.Msg','		t.Msg'),
('ok-eq-n-status',p,'	t.Status = TimerToRun\n	return nil','	return nil'),
('n-swap',p,'	if t.Cron != "" {\n		return t.Reset()','	if t.Cron == "" {\n		return t.Reset()'),
('n-reset',p,'		return t.Reset()\n	} else','		return nil\n	} else'),
R('h-service','"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,','"next_time <= ? and status = ?", time.Now(), TimerToRun,',),
R('h-due','"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,','"service = ? and status = ?", t.service, TimerToRun,'),
R('h-dueop','"service = ? and next_time <= ? and status = ?", t','"service = ? and next_time >= ? and status = ?", t'),
R('h-duefuture','"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,','"service = ? and next_time <= ? and status = ?", t.service, time.Now().Add(-t.opt.RunInterval*100), TimerToRun,'),
R('h-status','"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,','"service = ? and next_time <= ?", t.service, time.Now(),'),
R('l-status','"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,','"service = ? and next_time <= ? and id = ?", t.service, time.Now(), job.ID,'),
R('l-due','"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,','"service = ? and status = ? and id = ?", t.service, TimerToRun, job.ID,'),
R('ok-eq-l-id','"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,','"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,'),
R('l-nolock','tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where(','tx.Clauses(clause.OnConflict{}).Where('),
R('l-share','Strength: "UPDATE"','Strength: "SHARE"'),
R('l-outer','tx.Clauses(clause.Locking','t.db.Clauses(clause.Locking'),
R('l-err','				// continue\n				return nil\n','				// continue\n'),
R('l-plain','if err := t.db.Transaction(func(tx *gorm.DB) error {\n			// lock','if err := func(tx *gorm.DB) error {\n			// lock',f,'			return nil\n		}); err != nil {\n			// 只','			return nil\n		}(t.db); err != nil {\n			// 只'),
R('ok-eq-l-stop','				// continue\n				return nil\n','				// continue\n				return err\n'),
R('b-first','t.logger.Error(err, "save timer job failed", "jobID", job.ID)','t.logger.Error(err, "save timer job failed", "jobID", job.ID)\n			break'),
R('b-ret','t.logger.Error(err, "save timer job failed", "jobID", job.ID)','return err'),
R('b-nolog','t.logger.Error(err, "save timer job failed", "jobID", job.ID)','_ = err'),
R('cb-ret','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n				return err\n'),
R('cb-skip','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n				return nil\n'),
R('cb-close','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n				job.Close(err)\n				return tx.Save(job).Error\n'),
R('cb-nolog','				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n','				_ = err\n'),
R('ok-eq-nx-ignored','			if err := job.Next(); err != nil {\n				job.Close(err)\n			}\n','			_ = job.Next()\n'),
R('nx-gone','			if err := job.Next(); err != nil {\n				job.Close(err)\n			}\n',''),
R('nx-ret','				job.Close(err)\n			}\n\n			// 保存','				return err\n			}\n\n			// 保存'),
R('nx-before','			if err := t.call(ctx, job); err != nil {\n				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n			}\n			if err := job.Next(); err != nil {\n				job.Close(err)\n			}\n','			if err := job.Next(); err != nil {\n				job.Close(err)\n			}\n			if err := t.call(ctx, job); err != nil {\n				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n			}\n'),
R('sv-gone','			if err := tx.Save(job).Error; err != nil {\n				return err\n			}\n\n',''),
R('sv-outer','tx.Save(job)','t.db.Save(job)'),
R('sv-err','			if err := tx.Save(job).Error; err != nil {\n				return err\n			}\n\n','			tx.Save(job)\n'),
R('sv-updates','tx.Save(job)','tx.Model(job).Updates(TimerJob{NextTime: job.NextTime})'),
R('sv-err2','tx.Save(job).Error; err != nil {\n				return err','tx.Save(job).Error; err != nil {\n				return nil'),
R('cb-args','ctx, job.Key, job.Cron, job.Payload)','ctx, job.Key, job.Key, job.Payload)'),
R('cb-nilpayload','ctx, job.Key, job.Cron, job.Payload)','ctx, job.Key, job.Cron, nil)'),
R('cb-twice','			if err := t.call(ctx, job); err != nil {','			_ = t.call(ctx, job)\n			if err := t.call(ctx, job); err != nil {'),
R('cb-norecover','		if r := recover(); r != nil {','		if r := error(nil); r != nil {'),
R('cb-notrec','	defer func() {\n		if r := recover(); r != nil {\n			err = fmt.Errorf("panic: %v stack:%s", r, string(debug.Stack()))\n		}\n	}()\n','',f,'	"runtime/debug"\n','',f,'	"fmt"\n',''),
R('cb-swallow','			err = fmt.Errorf("panic: %v stack:%s", r, string(debug.Stack()))\n','			_ = fmt.Sprint(r, string(debug.Stack()))\n'),
R('cb-go','			if err := t.call(ctx, job); err != nil {\n				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n			}\n','			go func() {\n				if err := t.call(ctx, job); err != nil {\n					t.logger.Error(err, "timer job callback failed", "jobID", job.ID)\n				}\n			}()\n'),
R('j-first','	for _, job := range jobs {','	for _, job := range jobs[:1] {'),
R('j-scanerr','		return err\n	}\n	if len(jobs) == 0','		return nil\n	}\n	if len(jobs) == 0'),
R('j-nilcb','	if t.getCallback() == nil {\n		return nil\n	}\n',''),
# C38
R('s-once','	t.once.Do(func() {\n		run','	func() {\n		run',f,'		go run()\n	})','		go run()\n	}()'),
R('s-sync','		go run()','		run()'),
R('s-logerr','t.logger.Error(err, "handle job failed")','_ = err'),
R('s-ret','t.logger.Error(err, "handle job failed")','t.logger.Error(err, "handle job failed")\n					return'),
R('s-nogo','		go run()','		_ = run'),
# C40
R('k-nolock','	t.cbMu.Lock()\n	defer t.cbMu.Unlock()\n	t.cb = cb','	t.cb = cb'),
R('k-rlock','	t.cbMu.Lock()\n	defer t.cbMu.Unlock()\n	t.cb = cb','	t.cbMu.RLock()\n	defer t.cbMu.RUnlock()\n	t.cb = cb'),
R('k-leak','	t.cbMu.Lock()\n	defer t.cbMu.Unlock()\n	t.cb = cb','	t.cbMu.Lock()\n	t.cb = cb'),
R('k-readnolock','	t.cbMu.RLock()\n	defer t.cbMu.RUnlock()\n	return t.cb','	return t.cb'),
R('k-direct','return t.getCallback()(ctx','return t.cb(ctx'),
R('k-held','	return t.getCallback()(ctx, job','	t.cbMu.RLock()\n	defer t.cbMu.RUnlock()\n	return t.cb(ctx, job'),
# mem
('mm-default',m,'		e.ch <- evt\n','		select {\n		case e.ch <- evt:\n		default:\n		}\n'),
('mm-ctx',m,'		e.ch <- evt\n','		select {\n		case e.ch <- evt:\n		case <-ctx.Done():\n			return nil\n		}\n'),
('mm-first',m,'		e.ch <- evt\n','		e.ch <- evts[0]\n		_ = evt\n'),
('mm-rev',m,'	for _, evt := range evts {\n		e.ch <- evt','	for i := range evts {\n		e.ch <- evts[len(evts)-1-i]'),
('mm-go',m,'		e.ch <- evt\n','		go func(x *dddfirework.DomainEvent) { e.ch <- x }(evt)\n'),
('mm-twice',m,'		e.ch <- evt\n','		e.ch <- evt\n		e.ch <- evt\n'),
('mm-copy',m,'		e.ch <- evt\n','		c := dddfirework.DomainEvent{ID: evt.ID}\n		e.ch <- &c\n'),
('mm-skip',m,'		e.ch <- evt\n','		if evt.Type == "" {\n			continue\n		}\n		e.ch <- evt\n'),
('mm-cbstop',m,'					_ = cb(ctx, evt)','					if err := cb(ctx, evt); err != nil {\n						return\n					}'),
('mm-retry',m,'					_ = cb(ctx, evt)','					if err := cb(ctx, evt); err != nil {\n						_ = cb(ctx, evt)\n					}'),
('mm-requeue',m,'					_ = cb(ctx, evt)','					if err := cb(ctx, evt); err != nil {\n						e.ch <- evt\n					}'),
('mm-gocb',m,'					_ = cb(ctx, evt)','					go func() { _ = cb(ctx, evt) }()'),
('mm-spin',m,'			case <-ctx.Done():\n				return','			case <-ctx.Done():\n				continue'),
('mm-break',m,'			case <-ctx.Done():\n				return','			case <-ctx.Done():\n				break'),
('mm-noctx',m,'			case <-ctx.Done():\n				return\n',''),
('mm-one',m,'				if cb := e.getCallback(); cb != nil {\n					_ = cb(ctx, evt)\n				}\n','				if cb := e.getCallback(); cb != nil {\n					_ = cb(ctx, evt)\n				}\n				return\n'),
('mm-nil',m,'				if cb := e.getCallback(); cb != nil {\n					_ = cb(ctx, evt)\n				}\n','				_ = e.getCallback()(ctx, evt)\n'),
('mm-once',m,'	e.once.Do(func() {\n		go run()\n	})','	go run()'),
('mm-sync',m,'		go run()','		run()'),
('mm-nolock',m,'	e.cbMu.Lock()\n	defer e.cbMu.Unlock()\n	e.cb','	e.cb'),
('mm-readnolock',m,'	e.cbMu.RLock()\n	defer e.cbMu.RUnlock()\n	return','	return'),
('mm-held',m,'				if cb := e.getCallback(); cb != nil {\n					_ = cb(ctx, evt)\n				}\n','				e.cbMu.RLock()\n				if e.cb != nil {\n					_ = e.cb(ctx, evt)\n				}\n				e.cbMu.RUnlock()\n'),
('mm-regonce',m,'	e.cb = cb\n','	if e.cb == nil {\n		e.cb = cb\n	}\n'),
# ok
('ok-memctx',m,'		e.ch <- evt\n','		select {\n		case e.ch <- evt:\n		case <-ctx.Done():\n			return ctx.Err()\n		}\n'),
('ok-memidx',m,'	for _, evt := range evts {\n		e.ch <- evt','	for i := 0; i < len(evts); i++ {\n		e.ch <- evts[i]'),
('ok-memdone',m,'		for {\n			select {','		done := ctx.Done()\n		for {\n			select {',m,'case <-ctx.Done()','case <-done'),
('ok-memhandle',m,'				if cb := e.getCallback(); cb != nil {\n					_ = cb(ctx, evt)\n				}\n','				e.handle(ctx, evt)\n',m,'func (e *MemoryEventBus) Start','func (e *MemoryEventBus) handle(ctx context.Context, evt *dddfirework.DomainEvent) {\n	cb := e.getCallback()\n	if cb == nil {\n		return\n	}\n	_ = cb(ctx, evt)\n}\n\nfunc (e *MemoryEventBus) Start'),
('ok-memstart',m,'	run := func() {','	e.once.Do(func() { go e.run(ctx) })\n}\n\nfunc (e *MemoryEventBus) run(ctx context.Context) {\n	func() {',m,'	}\n	// 确保只启动一次\n	e.once.Do(func() {\n		go run()\n	})\n','	}()\n'),
('ok-memunlock',m,'	e.cbMu.RLock()\n	defer e.cbMu.RUnlock()\n	return e.cb','	e.cbMu.RLock()\n	cb := e.cb\n	e.cbMu.RUnlock()\n	return cb'),
R('ok-tcb','	return t.getCallback()(ctx, job.Key, job.Cron, job.Payload)','	cb := t.getCallback()\n	return cb(ctx, job.Key, job.Cron, job.Payload)'),
R('ok-tlockfn','	for _, job := range jobs {\n','	for i := range jobs {\n		job := jobs[i]\n'),
R('ok-ttx','			if err := tx.Save(job).Error; err != nil {\n				return err\n			}\n\n			return nil\n','			return tx.Save(job).Error\n'),
R('ok-twhere','t.db.Where(\n		"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,\n	)','t.db.Where("service = ?", t.service).Where("status = ?", TimerToRun).Where("next_time <= ?", time.Now())'),
R('ok-twhere2','			if err := tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where(\n				"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,\n			)','			if err := tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where(\n				"id = ? and service = ? and status = ? and next_time <= ?", job.ID, t.service, TimerToRun, time.Now(),\n			)'),
R('ok-tdelete','Where(map[string]interface{}{"service": t.service, "key": key}).Delete','Where("service = ? and `key` = ?", t.service, key).Delete'),
R('ok-textract','		if err := t.db.Transaction(func(tx *gorm.DB) error {\n			// lock job','		if err := t.handleJob(ctx, job); err != nil {\n			// 只可能在保存Job和提交事务时发生，continue\n			t.logger.Error(err, "save timer job failed", "jobID", job.ID)\n		}\n	}\n	return nil\n}\n\nfunc (t *DBTimer) handleJob(ctx context.Context, job *TimerJob) error {\n		return t.db.Transaction(func(tx *gorm.DB) error {\n			// lock job',f,'			return nil\n		}); err != nil {\n			// 只可能在保存Job和提交事务时发生，continue\n			t.logger.Error(err, "save timer job failed", "jobID", job.ID)\n		}\n	}\n\n	return nil\n}','			return nil\n		})\n}'),
R('ok-tstart','			for range ticker.C {','			defer ticker.Stop()\n			for {\n				<-ticker.C'),
R('ok-trun','	newTimer := TimerJob{\n		Service: t.service,\n		Key:     key,\n		Cron:    cronExp,\n		Payload: data,\n		Status:  TimerToRun,\n	}\n	return t.run(&newTimer)','	return t.run(&TimerJob{Service: t.service, Key: key, Cron: cronExp, Payload: data})'),
('ok-tstatus',p,'	if t.Cron != "" {\n		return t.Reset()\n	} else {\n		t.Close(nil)\n		return nil\n	}','	if t.Cron == "" {\n		t.Close(nil)\n		return nil\n	}\n	return t.Reset()'),
R('ok-tnow','	jobs := make([]*TimerJob, 0)\n	if err := t.db.Where(\n		"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,','	now := time.Now()\n	var jobs []*TimerJob\n	if err := t.db.Where(\n		"service = ? and next_time <= ? and status = ?", t.service, now, TimerToRun,'),
R('ok-tafter','runTime.Before(time.Now())','time.Now().After(runTime)'),
R('ok-tuntil','runTime.Before(time.Now())','time.Until(runTime) < 0'),
]
