f='eventbus/mysql/eventbus.go'
p='eventbus/mysql/po.go'
def R(name,old,new,*more): return (name,f,old,new)+more
M=[
# C29
R('d-notx','return e.getDB(ctx).Transaction(func(db *gorm.DB) error {\n		if err := db.Create(pos)','return func(db *gorm.DB) error {\n		if err := db.Create(pos)',f,'''				return err
			}
		}
		return nil
	})
}

func (e *EventBus) RegisterEventTXChecker''','''				return err
			}
		}
		return nil
	}(e.getDB(ctx))
}

func (e *EventBus) RegisterEventTXChecker'''),
R('d-plaindb','return e.getDB(ctx).Transaction(func(db *gorm.DB) error {\n		if err := db.Create(pos)','return e.db.Transaction(func(db *gorm.DB) error {\n		if err := db.Create(pos)'),
R('d-outer','if err := db.Create(spos).Error; err != nil {\n				return err','if err := e.db.Create(spos).Error; err != nil {\n				return err'),
R('d-erriignored','			if err := db.Create(spos).Error; err != nil {\n				return err\n			}','			if err := db.Create(spos).Error; err != nil {\n				continue\n			}'),
R('d-listerr','		serviceNames, err := e.listService()\n		if err != nil {\n			return err\n		}','		serviceNames, err := e.listService()\n		if err != nil {\n			return nil\n		}'),
R('d-dup','				spos[i] = &ServiceEventPO{\n					Service:        serviceName,\n					EventID:        po.ID,','				spos[i] = &ServiceEventPO{\n					Service:        serviceName,\n					EventID:        pos[0].ID,'),
R('d-service','					Service:        serviceName,\n','					Service:        e.serviceName + serviceName[:0],\n'),
R('d-status','					Status:         ServiceEventStatusInit,\n					EventCreatedAt','					Status:         ServiceEventStatusSuccess,\n					EventCreatedAt'),
R('d-late','NextTime: po.EventCreatedAt,','NextTime: time.Now().Add(e.opt.RunInterval),'),
R('d-break','				return err\n			}\n		}\n		return nil\n	})\n}\n\nfunc (e *EventBus) RegisterEventTXChecker','				return err\n			}\n			break\n		}\n		return nil\n	})\n}\n\nfunc (e *EventBus) RegisterEventTXChecker'),
R('d-notrans','			po.TransID = tx.ID\n','			_ = tx.ID\n'),
R('d-transfirst','		if tx != nil {\n			po.TransID','		if tx != nil && i == 0 {\n			po.TransID'),
R('d-ecreated','					EventCreatedAt: po.EventCreatedAt,','					EventCreatedAt: po.CreatedAt,'),
('d-sender',p,'		Sender:         event.Sender,\n',''),
('d-eid',p,'		EventID:        event.ID,\n','		EventID:        event.Sender,\n'),
('d-ca',p,'		EventCreatedAt: event.CreatedAt,\n','		EventCreatedAt: time.Now(),\n'),
('d-ev',p,'		Event:          event,\n','		Event:          &dddfirework.DomainEvent{ID: event.ID, Type: event.Type},\n'),
R('d-oldfilter','e.db.Find(&services)','e.db.Where("name = ?", e.serviceName).Find(&services)'),
R('d-listfind','	if err := e.db.Find(&services).Error; err != nil {\n		return nil, err\n	}','	if err := e.db.Find(&services).Error; err != nil {\n		return nil, nil\n	}'),
# C30
R('m-empty','	if len(evts) == 0 {\n		return ctx, fmt.Errorf("events can not be empty")\n	}\n',''),
R('m-due','DueTime: time.Now().Add(e.opt.TXCheckTimeout),','DueTime: time.Now().Add(-e.opt.TXCheckTimeout),'),
R('m-due2','DueTime: time.Now().Add(e.opt.TXCheckTimeout),\n',''+'\n'),
R('m-svc','	tx := &Transaction{\n		Service: e.serviceName,\n','	tx := &Transaction{\n'),
R('m-evs','		Events:  evts,\n','		Events:  evts[:1],\n'),
R('m-ctx','	return e.ctxWithTX(ctx, tx), nil','	return ctx, nil'),
R('m-err','	if err := e.getDB(ctx).Create(tx).Error; err != nil {\n		return ctx, err\n	}','	if err := e.getDB(ctx).Create(tx).Error; err != nil {\n		return ctx, nil\n	}'),
R('m-commitnil','	if tx == nil {\n		return ErrNoTransaction\n	}\n\n	err :=','	if tx == nil {\n		return nil\n	}\n\n	err :='),
R('m-always','	if err == gorm.ErrRecordNotFound {\n		err := e.Dispatch','	if err != nil || len(tx.Events) > 0 {\n		err := e.Dispatch'),
R('m-looked','Where("trans_id = ?", tx.ID)','Where("event_id = ?", tx.ID)'),
R('m-lookerr','	if err != nil && err != gorm.ErrRecordNotFound {\n		return err\n	}\n	if err == gorm.ErrRecordNotFound {','	if err != nil {'),
R('m-dispfail','		err := e.Dispatch(ctx, tx.Events...)\n		if err != nil {\n			return err\n		}','		err := e.Dispatch(ctx, tx.Events...)\n		if err != nil {\n			e.logger.Error(err, "dispatch failed")\n		}'),
R('m-nodel','	return e.getDB(ctx).Delete(tx).Error\n}\n\n// Rollback','	return nil\n}\n\n// Rollback'),
R('m-delfirst','	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error','	if err := e.getDB(ctx).Delete(tx).Error; err != nil {\n		return err\n	}\n	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error'),
R('m-delerr','	return e.getDB(ctx).Delete(tx).Error\n}\n\n// Rollback','	_ = e.getDB(ctx).Delete(tx).Error\n	return nil\n}\n\n// Rollback'),
R('m-rbdisp','		return ErrNoTransaction\n	}\n	return e.getDB(ctx).Delete(tx).Error','		return ErrNoTransaction\n	}\n	_ = e.Dispatch(ctx, tx.Events...)\n	return e.getDB(ctx).Delete(tx).Error'),
R('m-rbdb','		return ErrNoTransaction\n	}\n	return e.getDB(ctx).Delete(tx).Error','		return ErrNoTransaction\n	}\n	return e.db.Delete(tx).Error'),
R('m-cmdb','	return e.getDB(ctx).Delete(tx).Error\n}\n\n// Rollback','	return e.db.Delete(tx).Error\n}\n\n// Rollback'),
R('m-cmlook','err := e.getDB(ctx).Where("trans_id','err := e.db.Where("trans_id'),
R('o-service','"service = ? and due_time < ?", e.serviceName, time.Now(),','"due_time < ?", time.Now(),'),
R('o-due','"service = ? and due_time < ?", e.serviceName, time.Now(),','"service = ?", e.serviceName,'),
R('o-due2','due_time < ?", e.serviceName, time.Now(),','due_time > ?", e.serviceName, time.Now(),'),
R('o-lock','db.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where(\n			"service','db.Where(\n			"service'),
R('o-plain','		ctx := e.ctxWithDB(context.TODO(), db)\n','		ctx := context.TODO()\n'),
R('o-unknown','	} else if st == dddfirework.TXRollBack {','	} else {'),
R('o-swap','	if st == dddfirework.TXCommit {','	if st != dddfirework.TXRollBack {'),
R('o-return','			e.checkTX(ctx, tx)\n		}\n','			e.checkTX(ctx, tx)\n			break\n		}\n'),
R('o-nolog','		if err := e.Commit(ctx); err != nil {\n			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")\n		}','		_ = e.Commit(ctx)'),
R('o-norecover','''	defer func() {
		if r := recover(); r != nil {
			err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
			e.logger.Error(err, "[eventbus] panic while checking transaction")
		}
	}()
''',''),
R('o-nilchecker','	if txChecker == nil {\n		return\n	}\n',''),
# C31
R('h-nolock','tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).First(currentServiceEvent','tx.First(currentServiceEvent'),
R('h-plainlock','tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).First(currentServiceEvent','e.db.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).First(currentServiceEvent'),
R('h-share','Strength: "UPDATE", Options: "NOWAIT"}).First(currentServiceEvent','Strength: "SHARE", Options: "NOWAIT"}).First(currentServiceEvent'),
R('h-stale','		*spo = *currentServiceEvent\n',''),
R('h-nostatus','''		if spo.Status != ServiceEventStatusInit {
			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
			return nil
		}
''',''),
R('h-norecover','			if r := recover(); r != nil {\n				err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))\n				e.logger.Error(err, fmt.Sprintf("panic while handling event','			if r := any(nil); r != nil {\n				err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))\n				e.logger.Error(err, fmt.Sprintf("panic while handling event'),
R('h-panicnoretry','				e.doRetryStrategy(spo)\n				spo.FailedMessage','				spo.FailedMessage'),
R('h-panicdone','				e.doRetryStrategy(spo)\n				spo.FailedMessage','				spo.Status = ServiceEventStatusSuccess\n				spo.FailedMessage'),
R('h-saveplain','if err = tx.Save(spo).Error','if err = e.db.Save(spo).Error'),
R('h-saveerr','if err = tx.Save(spo).Error; err != nil {','if err := tx.Save(spo).Error; err != nil {'),
R('h-saveskip','			spo.RunAt = time.Now()\n','			spo.RunAt = time.Now()\n			if err != nil {\n				return\n			}\n'),
R('h-retry-on-pred','				spo.FailedMessage = fmt.Sprintf("%v", err)\n				return err\n','				spo.FailedMessage = fmt.Sprintf("%v", err)\n				e.doRetryStrategy(spo)\n				return err\n'),
R('h-success','		if err != nil {\n			// 更新','		spo.Status = ServiceEventStatusSuccess\n		if err != nil {\n			// 更新'),
R('h-errignored','			e.doRetryStrategy(spo)\n			spo.FailedMessage = fmt.Sprintf("%v", err)\n		} else {','			e.doRetryStrategy(spo)\n		} else {'),
R('h-noretry','			e.doRetryStrategy(spo)\n			spo.FailedMessage = fmt.Sprintf("%v", err)\n		} else {','			spo.FailedMessage = fmt.Sprintf("%v", err)\n		} else {'),
R('h-twice','		err = cb(ctx, po.Event)\n','		err = cb(ctx, po.Event)\n		if err != nil {\n			err = cb(ctx, po.Event)\n		}\n'),
R('ok-reterr','			spo.Status = ServiceEventStatusSuccess\n		}\n		return nil','			spo.Status = ServiceEventStatusSuccess\n		}\n		return err'),
R('h-notrans','	return e.db.Transaction(fn)','	return fn(e.db)'),
# C32
R('p-nosender','		e.logger.Error(err, "event_id", spo.EventID)\n		return err','		e.logger.Error(err, "event_id", spo.EventID)\n		return nil'),
R('p-order','Order("event_created_at desc, event_id desc")','Order("event_created_at, event_id")'),
R('p-sendercond','tx.Where("sender = ?", eventPO.Sender).\n','tx.Where("event_id <> ?", eventPO.EventID).\n'),
R('p-idcond','		Where("id < ?", eventPO.ID).\n',''),
R('p-err','			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)\n			return err','			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)\n			return nil'),
R('p-err2','		e.logger.V(logger.LevelInfo).Info("find preceding service_event error", "current event_id", spo.EventID, "err", err)\n		return err','		e.logger.V(logger.LevelInfo).Info("find preceding service_event error", "current event_id", spo.EventID, "err", err)\n		return nil'),
R('p-anysvc','tx.Where("service = ?", e.serviceName).\n		Where("event_id = ?", precedingEvent.ID)','tx.Where("event_id = ?", precedingEvent.ID)'),
R('p-expired','precedingEvent.ID < scanStartEventID','precedingEvent.ID <= scanStartEventID'),
R('p-noexpired','precedingServiceEvent.Status != ServiceEventStatusSuccess && precedingServiceEvent.Status != ServiceEventStatusExpired','precedingServiceEvent.Status != ServiceEventStatusSuccess'),
R('p-failedok','precedingServiceEvent.Status != ServiceEventStatusSuccess && precedingServiceEvent.Status != ServiceEventStatusExpired','precedingServiceEvent.Status == ServiceEventStatusInit'),
R('p-lax','if precedingServiceEvent.Status == ServiceEventStatusInit {','if precedingServiceEvent.Status == ServiceEventStatusInit || precedingServiceEvent.Status == ServiceEventStatusFailed {'),
R('p-laxnever','		if po.Event.SendType == dddfirework.SendTypeFIFO || po.Event.SendType == dddfirework.SendTypeLaxFIFO {','		if po.Event.SendType == dddfirework.SendTypeFIFO {'),
R('p-all','		if po.Event.SendType == dddfirework.SendTypeFIFO || po.Event.SendType == dddfirework.SendTypeLaxFIFO {','		if po.Event.SendType != "" {'),
R('p-lt','Where("event_created_at <= ?", eventPO.EventCreatedAt)','Where("event_created_at < ?", eventPO.EventCreatedAt)'),
# C33
R('r-count','		RetryCount: spo.RetryCount,\n','		RetryCount: 0,\n'),
R('r-nocount','		spo.RetryCount = newInfo.RetryCount\n',''),
R('r-notime','		spo.NextTime = newInfo.RetryTime\n',''),
R('r-nofail','	} else {\n		spo.Status = ServiceEventStatusFailed\n	}\n\n	return','	}\n\n	return'),
R('r-prio','	if opt.RetryStrategy != nil {\n		strategy = opt.RetryStrategy\n	} else if opt.RetryInterval > 0 {','	if opt.RetryInterval > 0 {'),
# C34
R('s-service','	serviceEventPOs := make([]*ServiceEventPO, 0)\n	if err := e.db.Where("service = ?", e.serviceName).\n','	serviceEventPOs := make([]*ServiceEventPO, 0)\n	if err := e.db.\n'),
R('s-status','		Where("status = ?", ServiceEventStatusInit).\n		Where("event_id >= ?", eventOffset).\n','		Where("event_id >= ?", eventOffset).\n'),
R('s-due','		Where("next_time <= ?", time.Now()).\n',''),
R('s-limit','.Limit(e.opt.LimitPerRun).Find(&serviceEventPOs)','.Find(&serviceEventPOs)'),
R('s-order','		Order("event_id").Limit','		Order("event_id desc").Limit'),
R('s-order2','		Order("event_id").Limit','		Order("next_time").Limit'),
R('s-offset','eventOffset = earliestRunnableServiceEvent.EventID','eventOffset = earliestRunnableServiceEvent.EventID + 1'),
R('s-offset2','eventOffset = earliestRunnableServiceEvent.EventID','eventOffset = earliestRunnableServiceEvent.ID'),
R('s-err','		if !errors.Is(err, gorm.ErrRecordNotFound) {\n			return nil, err\n		}\n		return nil, nil\n	}\n	eventIds','		return nil, nil\n	}\n	eventIds'),
R('s-err2','	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {\n		return nil, err\n	}','	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {\n		return nil, nil\n	}'),
R('s-pair','			Event:        eventPO,\n		})','			Event:        eventPOs[0],\n		})',f,'		eventPO, ok := eventByID','		_, ok := eventByID'),
R('s-stopmissing','		if !ok {\n			continue\n		}','		if !ok {\n			break\n		}'),
R('s-nilevent','		if !ok {\n			continue\n		}\n',' 		_ = ok\n'),
R('s-serial','			for po := range eventChan {\n				cb(ctx, po.Event, po.ServiceEvent)\n			}','			if po, ok := <-eventChan; ok {\n				cb(ctx, po.Event, po.ServiceEvent)\n			}'),
R('s-dup','		eventChan <- e\n	}\n	close','		eventChan <- e\n	}\n	if len(eventPOs) > 1 {\n		eventChan <- eventPOs[0]\n	}\n	close',f,'make(chan *EventTuple, len(eventPOs))','make(chan *EventTuple, len(eventPOs)+1)'),
R('ok-nowait','	wg.Wait()\n	return\n','	return\n'),
R('s-stopon','				if err := e.handleEvent(ctx, po, spo, scanStartEventID); err != nil &&','				if err := e.handleEvent(ctx, po, spo, 0); err != nil &&'),
R('s-scanerr','		e.logger.Error(err, "getScanEvents error")\n		return err','		return nil'),
R('s-workererr','''					if errors.Is(err, ErrServiceNotCreate) {
						_ = e.initService()
					}
					e.logger.Error(err, "handler events err")''','''					if errors.Is(err, ErrServiceNotCreate) {
						_ = e.initService()
					}
					return'''),
R('ok-txerrstop','				e.logger.Error(err, "handle transaction failed")\n','				e.logger.Error(err, "handle transaction failed")\n				continue\n'),
R('s-nocb','			if cb, _ := e.getCallbacks(); cb != nil {','			if cb, _ := e.getCallbacks(); cb != nil || true {'),
# C35
R('c-service','query = query.Where("service = ?", e.serviceName).Where("status','query = query.Where("status'),
R('c-status','.Where("status = ?", ServiceEventStatusSuccess)',''),
R('c-status2','Where("status = ?", ServiceEventStatusSuccess)','Where("status <> ?", ServiceEventStatusInit)'),
R('c-age','.Where("event_created_at < ?", needCleanAt)','',f,'	query = query.Where("service','	_ = needCleanAt\n	query = query.Where("service'),
R('c-age2','Where("event_created_at < ?", needCleanAt)','Where("event_created_at > ?", needCleanAt)'),
R('c-age3','time.Now().Add(-e.opt.RetentionTime)','time.Now().Add(e.opt.RetentionTime)'),
R('c-dels','e.db.Where("service = ?", e.serviceName).Where("event_id in ?", eventIDs).Delete(ServiceEventPO{})','e.db.Where("event_id in ?", eventIDs).Delete(ServiceEventPO{})'),
R('c-refs','			Where("event_id in ?", eventIDs).\n			Group','			Where("event_id in ? and service = ?", eventIDs, e.serviceName).\n			Group'),
R('c-refs2','			if !reservedEventIDs[eventID] {','			if reservedEventIDs[eventID] || len(eventIDCounts) == 0 {'),
R('c-all','e.db.Where("id in ?", deleteEventIDs)','e.db.Where("id in ?", eventIDs)'),
R('c-lastbatch','	if len(eventIDs) > 0 {\n		if err = deleteServiceEvents(eventIDs); err != nil {\n			return err\n		}\n	}\n',''),
R('c-noreset','			eventIDs = eventIDs[:0]\n','			eventIDs = make([]int64, 0)\n			rows.Next()\n'),
R('c-close','	defer func() {\n		_ = rows.Close()\n	}()\n',''),
R('c-rowserr','	if err = rows.Err(); err != nil {\n		return err\n	}\n',''),
R('c-scanerr','		err = e.db.ScanRows(rows, serviceEvent)\n		if err != nil {\n			return err\n		}','		err = e.db.ScanRows(rows, serviceEvent)\n		if err != nil {\n			continue\n		}'),
R('c-delerr','				return err\n			}\n			// 清空eventIDs','				e.logger.Error(err, "x")\n			}\n			// 清空eventIDs'),
R('c-nolog','				e.logger.Error(err, "clean events err")\n',''),
R('c-counterr','			Group("event_id").Find(&eventIDCounts).Error; err != nil {\n			return err\n		}','			Group("event_id").Find(&eventIDCounts).Error; err != nil {\n			e.logger.Error(err, "count")\n		}'),
R('c-id','eventIDs = append(eventIDs, serviceEvent.EventID)','eventIDs = append(eventIDs, serviceEvent.ID)'),
R('c-evfirst','''		if err := e.db.Where("id in ?", deleteEventIDs).Delete(EventPO{}).Error; err != nil {
			return err
		}
		return nil''','''		_ = e.db.Where("id in ?", deleteEventIDs).Delete(EventPO{}).Error
		return nil'''),
# start
R('st-once','	e.once.Do(func() {','	func(f func()) { f() }(func() {'),
R('st-nogo','		go run()\n','		go func() { _ = run }()\n'),
R('st-spec','e.cleanCron.AddFunc(e.opt.CleanCron,','e.cleanCron.AddFunc(cleanCron,'),
R('st-nostart','		e.cleanCron.Start()\n',''),
# ok
R('ok-inline','	return e.db.Transaction(fn)','	err := e.db.Transaction(fn)\n	return err'),
R('ok-manualtx','	return e.db.Transaction(fn)','	t := e.db.Begin()\n	if t.Error != nil {\n		return t.Error\n	}\n	if err := fn(t); err != nil {\n		t.Rollback()\n		return err\n	}\n	return t.Commit().Error'),
R('ok-oneWhere','tx.Where("service = ?", e.serviceName).\n		Where("event_id = ?", precedingEvent.ID)','tx.Where("service = ? and event_id = ?", e.serviceName, precedingEvent.ID)'),
R('ok-structWhere','tx.Where("service = ?", e.serviceName).\n		Where("event_id = ?", precedingEvent.ID)','tx.Where(&ServiceEventPO{Service: e.serviceName, EventID: precedingEvent.ID})'),
R('ok-switch','''	if st == dddfirework.TXCommit {
		if err := e.Commit(ctx); err != nil {
			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
		}
	} else if st == dddfirework.TXRollBack {
		if err := e.Rollback(ctx); err != nil {
			e.logger.Error(err, "[eventbus] rollback failed after tx check timeout")
		}
	}''','''	var err error
	switch st {
	case dddfirework.TXCommit:
		err = e.Commit(ctx)
	case dddfirework.TXRollBack:
		err = e.Rollback(ctx)
	default:
		return
	}
	if err != nil {
		e.logger.Error(err, "[eventbus] settling failed after tx check timeout")
	}'''),
R('ok-batchall','''		for _, serviceName := range serviceNames {
			spos := make([]*ServiceEventPO, len(events))
			for i, po := range pos {
				spos[i] = &ServiceEventPO{''','''		spos := make([]*ServiceEventPO, 0)
		for _, serviceName := range serviceNames {
			for _, po := range pos {
				spos = append(spos, &ServiceEventPO{''',f,'''					NextTime: po.EventCreatedAt,
				}
			}
			if err := db.Create(spos).Error; err != nil {
				return err
			}
		}
		return nil''','''					NextTime: po.EventCreatedAt,
				})
			}
		}
		if len(spos) == 0 {
			return nil
		}
		return db.Create(spos).Error'''),
R('ok-one','''			if err := db.Create(spos).Error; err != nil {
				return err
			}''','''			for _, s := range spos {
				if err := db.Create(s).Error; err != nil {
					return err
				}
			}'''),
R('ok-worker','''			for po := range eventChan {
				cb(ctx, po.Event, po.ServiceEvent)
			}''','''			for {
				po, ok := <-eventChan
				if !ok {
					return
				}
				cb(ctx, po.Event, po.ServiceEvent)
			}'''),
R('ok-nobatch','	batch := 10\n','	batch := 5\n'),
R('ok-joincond','''Where("service = ?", e.serviceName).Where("status = ?", ServiceEventStatusSuccess).Where("event_created_at < ?", needCleanAt)''','''Where("service = ? AND status = ? AND event_created_at < ?", e.serviceName, ServiceEventStatusSuccess, needCleanAt)'''),
R('ok-select','''	run := func() {
		// 定时触发event_handler
		ticker := time.NewTicker(e.opt.RunInterval)
		for range ticker.C {''','''	run := func() {
		// 定时触发event_handler
		ticker := time.NewTicker(e.opt.RunInterval)
		for {
			<-ticker.C'''),
R('ok-cbparam','cb, _ := e.getCallbacks()\n		err = cb(ctx, po.Event)','e.cbMu.RLock()\n		cb := e.cb\n		e.cbMu.RUnlock()\n		err = cb(ctx, po.Event)'),
R('ok-statushelper','''		if po.Event.SendType == dddfirework.SendTypeFIFO || po.Event.SendType == dddfirework.SendTypeLaxFIFO {''','''		ordered := map[dddfirework.SendType]bool{dddfirework.SendTypeFIFO: true, dddfirework.SendTypeLaxFIFO: true}
		if ordered[po.Event.SendType] {'''),
R('ok-updates','if err = tx.Save(spo).Error','if err = tx.Model(spo).Select("*").Updates(spo).Error'),
R('ok-lookcount','''	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
	if err != nil && err != gorm.ErrRecordNotFound {
		return err
	}
	if err == gorm.ErrRecordNotFound {''','''	var n int64
	if err := e.getDB(ctx).Model(&EventPO{}).Where("trans_id = ?", tx.ID).Count(&n).Error; err != nil {
		return err
	}
	if n == 0 {'''),
R('ok-commitReorder','''	tx := e.getTX(ctx)
	if tx == nil {
		return ErrNoTransaction
	}

	err :=''','''	tx := e.getTX(ctx)
	db := e.getDB(ctx)
	if tx == nil {
		return ErrNoTransaction
	}
	_ = db

	err :='''),
]
