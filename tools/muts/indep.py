e='engine.go'; s='snapshot.go'; v='event.go'; d='domain.go'; c='command.go'
b='eventbus/mysql/eventbus.go'; x='executor/mysql/executor.go'; l='lock/db/sql.go'; r='lock/redis/redis.go'; t='d_timer/sql/timer.go'; tm='d_timer/sql/model.go'; m='eventbus/mem/eventbus.go'; po='eventbus/mysql/po.go'
M=[
# engine, two sites
('kids-cache',s,'''	children := entity.GetChildren()
	if children != nil {
		return children
	}
''','''	if cached, in := childrenCache.Load(entity); in {
		return cached.(map[string][]IEntity)
	}
	children := entity.GetChildren()
	if children != nil {
		childrenCache.Store(entity, children)
		return children
	}
''',s,'type changeType int8\n','var childrenCache sync.Map\n\ntype changeType int8\n',s,'	"sort"\n)','	"sort"\n	"sync"\n)'),
('undirty-events',d,'''	e.isDirty = false
''','''	e.isDirty = false
	e.events = nil
'''),
('events-once-drain',d,'	return e.events\n','	evts := e.events\n	e.events = nil\n	return evts\n'),
('same-id-same',s,'''	for e := range s {
		if _, in := s2[e]; !in {
			res[e] = s[e]
		}
	}
	return res
}

func (s simpleSet) IsSubset''','''	for e := range s {
		found := false
		for o := range s2 {
			if o == e || (e.GetID() != "" && o.GetID() == e.GetID()) {
				found = true
			}
		}
		if !found {
			res[e] = s[e]
		}
	}
	return res
}

func (s simpleSet) IsSubset'''),
('newid-batch',e,'''	for _, item := range changes {
		if item.changeType == newChildren {
			for _, child''','''	for _, item := range changes {
		if item.changeType == newChildren && len(item.children) > 0 && item.children[0].GetID() == "" {
			for _, child'''),
('newid-continue',e,'''					if err != nil {
						return err
					}
					child.SetID(id)''','''					if err != nil {
						e.logger.Error(err, "new id failed")
						continue
					}
					child.SetID(id)'''),
('events-type-map',e,'			eventMap[evt.ID] = evt\n		}\n		return\n	})','			if _, in := eventMap[evt.ID]; !in || evt.SendType == SendTypeTransaction {\n				eventMap[evt.ID] = evt\n			}\n		}\n		return\n	})'),
('events-bysender',e,'	// 事件根据发送时间','	sort.SliceStable(events, func(i, j int) bool { return events[i].Sender < events[j].Sender })\n	// 事件根据发送时间',e,'		return events[i].CreatedAt.Before(events[j].CreatedAt) ||\n			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)','		return events[i].CreatedAt.Before(events[j].CreatedAt)'),
('events-unixcmp',e,'events[i].CreatedAt.Before(events[j].CreatedAt) ||\n			(events[i].CreatedAt.Equal(events[j].CreatedAt)','events[i].CreatedAt.Unix() < events[j].CreatedAt.Unix() ||\n			(events[i].CreatedAt.Unix() == events[j].CreatedAt.Unix()'),
('recycle-first',e,'			for _, entity := range c.children {\n				e.meta.Recycle(entity)\n			}','			e.meta.Recycle(c.children[0])'),
('persist-dryhooks',e,'''	if err := e.exec(ctx, actions); err != nil {
		return err
	}
''','''	if err := e.exec(ctx, actions); err != nil {
		return err
	}
	if len(actions) == 0 {
		return nil
	}
'''),
('exec-result-partial',e,'''	for _, a := range actions {
		if err := e.executor.Exec(ctx, a); err != nil {
			return err
		}
	}
	e.result.Actions = append(e.result.Actions, actions...)''','''	for _, a := range actions {
		if err := e.executor.Exec(ctx, a); err != nil {
			return err
		}
		if a.Op != OpDelete {
			e.result.Actions = append(e.result.Actions, a)
		}
	}'''),
('save-nocommit-flush',e,'''	if err := e.flush(); err != nil {
		return err
	}

	e.unDirty()
	return nil''','''	e.unDirty()
	if e.options.DryRun {
		return nil
	}
	return e.flush()'''),
('undirty-first',e,'''	if err := e.persist(ctx); err != nil {
		return err
	}
	if err := e.flush(); err != nil {
		return err
	}

	e.unDirty()
	return nil''','''	if err := e.persist(ctx); err != nil {
		return err
	}
	e.unDirty()
	for _, root := range e.meta.roots {
		if !e.hasSnapshot(root) {
			return e.flush()
		}
	}
	return nil'''),
('lockprefix',e,'fmt.Sprintf("ddd_engine_%s", id)','fmt.Sprintf("ddd_engine_%s", strings.ToLower(id))',e,'	"sort"\n','	"sort"\n	"strings"\n'),
('lock-empty-skip',e,'		for _, id := range lockKeys {\n','		for _, id := range lockKeys {\n			if id == "" {\n				continue\n			}\n'),
('lock-ctx-timeout',e,'''		return f(ctx)
	}
}

func (e *Stage) runWithTransaction''','''		lctx, cancel := context.WithTimeout(ctx, time.Minute)
		defer cancel()
		return f(lctx)
	}
}

func (e *Stage) runWithTransaction''',e,'	"sort"\n','	"sort"\n	"time"\n'),
('post-oncerr',e,'			h(ctx, res)\n','			h(ctx, res)\n			if res.Error != nil {\n				break\n			}\n'),
('post-recover',e,'			h(ctx, res)\n','			func() {\n				defer func() { _ = recover() }()\n				h(ctx, res)\n			}()\n'),
('post-break2',e,'if res.Error == nil && len','if res.Error == nil && len(res.Actions) > 0 && len'),
('commit-err-result',e,'			result.Error = err\n			e.logger.Error(err, "commit failed"','			result = &Result{Error: fmt.Errorf("commit failed: %v", err)}\n			e.logger.Error(err, "commit failed"'),
('txmsg-twice',e,'''				_ = txEventBus.Commit(e.eventCtx)
''','''				if err := txEventBus.Commit(e.eventCtx); err != nil {
					_ = txEventBus.Rollback(e.eventCtx)
				}
'''),
('txmsg-onlyall',e,'			if len(txEvents) > 0 {\n			e.eventCtx','			if len(txEvents) > 0 {\n			e.eventCtx'),
('tx-normalfirst-return',e,'''		if len(normalEvents) > 0 {
			if err = txEventBus''','''		if len(normalEvents) > 0 && (err == nil && len(txEvents) == 0) {
			if err = txEventBus'''),
('option-nil-keep',e,'	opts.EventPersist = EventPersist(t)\n','	if t != nil {\n		opts.EventPersist = EventPersist(t)\n	}\n'),
('getrefuse',e,'''	if r.stage.meta.Has(root) {
		return ErrEntityRepeated
	}
	// 先建立''','''	// 先建立'''),
('remove-nosnap',e,'''		if err := r.stage.updateSnapshot(toCreate...); err != nil {
			r.appendError(err)
			return
		}
''','''		if err := r.stage.updateSnapshot(toCreate...); err != nil {
			r.stage.logger.Error(err, "snapshot failed")
		}
'''),
('recursive-create',s,'''	for _, item := range changed {
		if item.changeType == deleteChildren {
			for _, c := range item.children {
				if err := walk(''','''	for _, item := range changed {
		if item.changeType >= dirtyChildren {
			for _, c := range item.children {
				if err := walk('''),
('recursive-onelevel',s,'''						deleted := make([]IEntity, 0, len(entities))
''','''						if entity != c {
							continue
						}
						deleted := make([]IEntity, 0, len(entities))
'''),
('diff-emptykey',s,'		created, remain, deleted :=','		if len(children) == 0 && len(keys) > 1 {\n			continue\n		}\n		created, remain, deleted :='),
('diff-created-leaf',s,'''			for _, item := range created {
				res = append(res, entityDiff(item, pool)...)
			}''','''			for _, item := range created {
				if item.GetID() == "" {
					res = append(res, entityDiff(item, pool)...)
				}
			}'''),
('toslice-nosort',s,'''	sort.SliceStable(res, func(i, j int) bool {
		return s[res[i]] < s[res[j]]
	})
''',''),
('move-same-parent',s,'prev.changeType == newChildren && item.changeType == deleteChildren {','prev.changeType == newChildren && item.changeType == deleteChildren && prev.parent != item.parent {'),
('move-keepprev',s,'''				item.Remove(entity)
				prev.Remove(entity)
''','''				item.Remove(entity)
				if len(prev.children) > 1 {
					prev.Remove(entity)
				}
'''),
('walk-visited',s,'''	for _, entities := range children {
		for _, c := range entities {
			if err := walk(c, entity, f); err != nil {
				return err
			}
		}
	}
	return nil''','''	for _, entities := range children {
		for i, c := range entities {
			if i > 0 && c.GetID() != "" && c.GetID() == entities[i-1].GetID() {
				continue
			}
			if err := walk(c, entity, f); err != nil {
				return err
			}
		}
	}
	return nil'''),
('router-snapshot-copy',v,'	handlers := eventRouter[evt.Type]\n	eventBusMu.Unlock()\n','	handlers := eventRouter[evt.Type]\n	eventBusMu.Unlock()\n	if len(handlers) > 1 && evt.SendType == SendTypeTransaction {\n		handlers = handlers[:1]\n	}\n'),
('router-payload-empty',v,'			if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {\n				return err\n			}\n		}\n\n		outs := h','			if len(evt.Payload) > 0 {\n				if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {\n					return err\n				}\n			}\n		}\n\n		outs := h'),
('checker-unknown-payload',v,'''			return TXRollBack
		}
	}

	outs''','''			return TXUnknown
		}
	}

	outs'''),
('evt-createdutc',v,'		CreatedAt: time.Now(),','		CreatedAt: time.Now().Truncate(time.Second),'),
('evt-id-short',v,'xid.New().String(),','xid.New().String()[:12],'),
# bus
('bus-services-cached',b,'''func (e *EventBus) listService() ([]string, error) {
''','''func (e *EventBus) listService() ([]string, error) {
	e.cbMu.Lock()
	defer e.cbMu.Unlock()
	if e.services != nil {
		return e.services, nil
	}
''',b,'	return serviceNames, nil\n','	e.services = serviceNames\n	return serviceNames, nil\n',b,'	once      sync.Once\n','	once      sync.Once\n	services  []string\n'),
('bus-txkey-const',b,'contextKey(fmt.Sprintf("eventbus_tx_%s", xid.New().String()))','contextKey("eventbus_tx")',b,'	"github.com/rs/xid"\n',''),
('bus-disp-empty',b,'	tx := e.getTX(ctx)\n	pos := make','	if len(events) == 0 {\n		return nil\n	}\n	tx := e.getTX(ctx)\n	if tx != nil && len(events) > 1 {\n		events = events[:len(events)-1]\n	}\n	pos := make'),
('bus-commit-window',b,'	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First','	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).Where("created_at > ?", tx.CreatedAt).First'),
('bus-commit-checkdb',b,'	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First','	err := e.db.Where("trans_id = ? and event_id = ?", tx.ID, tx.Events[0].ID).First'),
('bus-due-created',b,'"service = ? and due_time < ?", e.serviceName, time.Now(),','"service = ? and created_at < ?", e.serviceName, time.Now().Add(-e.opt.TXCheckTimeout),'),
('bus-tx-stop',b,'''	if st == dddfirework.TXCommit {
		if err''','''	if st == dddfirework.TXCommit && len(tx.Events) == 1 {
		if err'''),
('bus-scan-desc',b,'''		Where("next_time <= ?", time.Now()).
		Order("event_id").Limit''','''		Where("next_time <= ?", time.Now()).
		Order("next_time").Limit'''),
('bus-scan-limit2',b,'Order("event_id").Limit(e.opt.LimitPerRun)','Order("event_id").Limit(limitPerRun)'),
('bus-scan-window',b,'		Where("event_id >= ?", scanStartEventID).\n		Order("event_id").Take','		Where("event_id > ?", scanStartEventID).\n		Order("event_id").Take'),
('bus-workers',b,'for i := 0; i < e.opt.ConsumeConcurrent; i++ {','for i := 1; i < e.opt.ConsumeConcurrent; i++ {'),
('bus-shared-tx',b,'	return e.db.Transaction(fn)\n','	return e.getDB(ctx).Session(&gorm.Session{SkipDefaultTransaction: true}).Connection(fn)\n'),
('bus-preceding-sendtype',b,'		Where("id < ?", eventPO.ID).\n','		Where("id < ?", eventPO.ID).\n		Where("trans_id = ?", eventPO.TransID).\n'),
('bus-preceding-order',b,'Order("event_created_at desc, event_id desc")','Order("event_id desc, event_created_at desc")'),
('bus-preceding-time',b,'Where("event_created_at <= ?", eventPO.EventCreatedAt)','Where("created_at <= ?", eventPO.EventCreatedAt)'),
('bus-panic-lost',b,'				e.doRetryStrategy(spo)\n				spo.FailedMessage = fmt.Sprintf("%v", err)\n			}\n			// 65535','				spo.FailedMessage = fmt.Sprintf("%v", err)\n			}\n			// 65535'),
('bus-retrytime',b,'		RetryTime:  time.Now(),\n	}\n	newInfo','		RetryTime:  spo.EventCreatedAt,\n	}\n	newInfo'),
('bus-interval-mult',b,'		RetryTime:  lastTime.Add(c.Interval),','		RetryTime:  lastTime.Add(c.Interval / time.Duration(info.RetryCount+1)),'),
('bus-custom-idx',b,'c.Intervals[info.RetryCount]','c.Intervals[len(c.Intervals)-1-info.RetryCount]'),
('bus-limit-neg',b,'	if info.RetryCount > c.Limit {\n		return nil\n	}\n	return','	if c.Limit > 0 && info.RetryCount > c.Limit {\n		return nil\n	}\n	return'),
('bus-clean-time',b,'Where("event_created_at < ?", needCleanAt)','Where("run_at < ?", needCleanAt)'),
('bus-clean-neg',b,'	needCleanAt := time.Now().Add(-e.opt.RetentionTime)','	needCleanAt := time.Now().Add(-retentionTime)'),
('bus-clean-delall',b,'	if err := e.db.Where("service = ?", e.serviceName).Where("event_id in ?", eventIDs).Delete','	if err := e.db.Where("event_id in ?", eventIDs).Where("status = ?", ServiceEventStatusSuccess).Delete'),
('bus-clean-batcherr',b,'				if err = deleteServiceEvents(eventIDs); err != nil {\n				return err\n			}\n			// 清空','				if err = deleteServiceEvents(eventIDs); err != nil {\n				return err\n			}\n			// 清空'),
('bus-start-ctx',b,'''		for range ticker.C {
			if err := e.handleTransactions()''','''		for range ticker.C {
			if ctx.Err() != nil {
				continue
			}
			if err := e.handleTransactions()'''),
('bus-start-onlyev',b,'''			if err := e.handleTransactions(); err != nil {
				e.logger.Error(err, "handle transaction failed")
			}
''','''			if err := e.handleTransactions(); err != nil {
				e.logger.Error(err, "handle transaction failed")
				continue
			}
'''),
('bus-postsave',b,'	go func() {\n		_ = e.handleEvents()\n	}()','	go func() {\n		if err := e.handleEvents(); err != nil {\n			panic(err)\n		}\n	}()'),
('bus-po-created',po,'		EventCreatedAt: event.CreatedAt,','		EventCreatedAt: time.Now(),'),
('bus-po-id',po,'		Sender:         event.Sender,','		Sender:         string(event.Type),'),
# executor
('x-query-struct',x,'db.Where(a.Query).Find','db.Where(a.Query).Limit(1000).Find'),
('x-query-first',x,'res := db.Where(a.Query).Find(a.QueryResult)','res := db.Where(a.Query, "id").Find(a.QueryResult)'),
('x-del-unscoped',x,'				if err := db.Delete(m).Error','				if err := db.Where("1 = 1").Delete(m).Error'),
('x-del-pk',x,'			pk := s.PrimaryFields[0].DBName','			pk := s.Fields[0].DBName'),
('x-ins-batch',x,'		return db.Create(pos.Interface()).Error','		for i := 0; i < pos.Len(); i++ {\n			if err := db.Create(pos.Index(i).Interface()).Error; err != nil && i == 0 {\n				return err\n			}\n		}\n		return nil'),
('x-upd-diffswap',x,'DiffModel(m, a.PrevModels[i])','DiffModel(a.PrevModels[i], m)'),
('x-upd-len',x,'if len(a.PrevModels) > i {','if len(a.PrevModels) == len(a.Models) && i > 0 {'),
('x-begin-nested',x,'	tx := e.db.Begin()\n','	if tx, ok := ctx.Value(e.txKey).(*gorm.DB); ok {\n		return context.WithValue(ctx, e.txKey, tx), nil\n	}\n	tx := e.db.Begin()\n'),
('x-rollback-nil',x,'	return tx.Rollback().Error','	_ = tx.Rollback()\n	return nil'),
('x-commit-rb',x,'	return tx.Commit().Error','	if err := tx.Commit().Error; err != nil {\n		return tx.Rollback().Error\n	}\n	return nil'),
('x-exec-errdb',x,'	return f(db, action)','	if len(action.Models) == 0 && action.Op != ddd.OpQuery {\n		return nil\n	}\n	return f(e.db, action)'),
# lock
('l-ttl-unit',l,'time.Since(lock.UpdatedAt) < r.ttl','time.Since(lock.UpdatedAt) < r.opt.RenewInterval'),
('l-ttl-created',l,'time.Since(lock.UpdatedAt) < r.ttl','time.Since(lock.CreatedAt) < r.ttl'),
('l-locker-const',l,'	lockerID := xid.New().String()\n','	lockerID := r.lockerID\n',l,'	opt    Options\n}\n','	opt    Options\n\n	lockerID string\n}\n',l,'logger: opt.Logger, opt: opt}','logger: opt.Logger, opt: opt, lockerID: xid.New().String()}'),
('l-dup-nil',l,'				return nil, dddfirework.ErrEntityLocked\n			}\n			return nil, fmt.Errorf("failed to create','				return l, nil\n			}\n			return nil, fmt.Errorf("failed to create'),
('l-retry-cancel',l,'			return err == dddfirework.ErrEntityLocked','			return err == dddfirework.ErrEntityLocked || errors.Is(err, context.DeadlineExceeded)'),
('l-retry-last',l,'		retry.LastErrorOnly(true),\n',''),
('l-upd-noid',l,'UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: l.LockerID})','UpdateColumns(ResourceLock{LockerID: l.LockerID})'),
('l-unlock-ctx',l,'r.db.WithContext(ctx).Where("locker_id = ? and resource = ?", l.LockerID, l.Resource)','r.db.WithContext(ctx).Where(&ResourceLock{LockerID: l.LockerID})'),
('l-run-renewonce',l,'''				if err := r.update(ctx, locker); err != nil {''','''				if subCtx.Err() != nil {
					return
				}
				ticker.Stop()
				if err := r.update(ctx, locker); err != nil {'''),
('l-run-unlockerr',l,'''	fn(subCtx)
	return nil''','''	fn(subCtx)
	return subCtx.Err()'''),
('l-run-go',l,'	fn(subCtx)\n','	done := make(chan struct{})\n	go func() {\n		defer close(done)\n		fn(subCtx)\n	}()\n	select {\n	case <-done:\n	case <-subCtx.Done():\n	}\n'),
('r-nilpanic',r,'	return l.Release(ctx)','	if err := l.Release(ctx); err != nil && err != redislock.ErrLockNotHeld {\n		return err\n	}\n	return nil'),
('r-typednil',r,'== redislock.ErrNotObtained {\n		return nil, dddfirework.ErrEntityLocked','== redislock.ErrNotObtained {\n		return keyLock, dddfirework.ErrEntityLocked'),
# timer
('t-due-lt',t,'"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,','"service = ? and next_time <= ? and status <> ?", t.service, time.Now(), TimerFinished,'),
('t-cb-err-noresched',t,'''				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
''','''				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
				return nil
'''),
('t-next-close',tm,'		return t.Reset()\n	} else {','		if err := t.Reset(); err != nil {\n			return nil\n		}\n		return nil\n	} else {'),
('t-reset-utc',tm,'scheduler.Next(time.Now())','scheduler.Next(t.NextTime)'),
('t-close-overdue',tm,'err == nil || errors.Is(err, ErrTimerOverdue)','err == nil'),
# mem
('m-async',m,'		e.ch <- evt\n','		go func(evt *dddfirework.DomainEvent) { e.ch <- evt }(evt)\n'),
('m-drop',m,'		e.ch <- evt\n','		select {\n		case e.ch <- evt:\n		default:\n		}\n'),
('m-ctxdrop',m,'		e.ch <- evt\n','		select {\n		case e.ch <- evt:\n		case <-ctx.Done():\n			return nil\n		}\n'),
('ok-m-ctxerr',m,'		e.ch <- evt\n','		select {\n		case e.ch <- evt:\n		case <-ctx.Done():\n			return ctx.Err()\n		}\n'),
]
M=[q for q in M if q[0] not in('txmsg-onlyall','bus-clean-batcherr')]
