E="engine.go"; S="snapshot.go"; EV="event.go"; B="eventbus/mysql/eventbus.go"; P="eventbus/mysql/po.go"; T="d_timer/sql/timer.go"; L="lock/db/sql.go"; X="executor/mysql/executor.go"; M_="eventbus/mem/eventbus.go"
M = [
 ("errlist-first",E,"func (e ErrList) Unwrap() []error {\n\treturn e","func (e ErrList) Unwrap() []error {\n\tif len(e) > 1 {\n\t\treturn e[:1]\n\t}\n\treturn e"),
 ("geterror-last",E,"return errors.Join(r.errs...)","if len(r.errs) == 0 {\n\t\treturn nil\n\t}\n\treturn r.errs[len(r.errs)-1]"),
 ("remove-evonly",E,"\tw.roots = w.roots[:i]\n\tw.deleted = append(w.deleted, root)","\tw.roots = w.roots[:i]\n\tif len(root.GetEvents()) > 0 {\n\t\tw.deleted = append(w.deleted, root)\n\t}"),
 ("recycle-evonly",E,"func (w *EntityContainer) Recycle(e IEntity) {\n\tw.deleted","func (w *EntityContainer) Recycle(e IEntity) {\n\tif len(e.GetEvents()) == 0 && len(findChildren(e)) == 0 {\n\t\treturn\n\t}\n\tw.deleted"),
 ("recycle-before",E,"\tif err := e.exec(ctx, actions); err != nil {\n\t\treturn err\n\t}\n\t// 执行保存后","\te.recycle(changed)\n\tif err := e.exec(ctx, actions); err != nil {\n\t\treturn err\n\t}\n\tchanged2 := changed\n\t_ = changed2\n\t// 执行保存后"),
 ("diff-byid",S,"\t\tif _, in := s2[e]; !in {\n\t\t\tres[e] = s[e]\n\t\t}\n\t}\n\treturn res\n}\n\nfunc (s simpleSet) IsSubset","\t\tif _, in := s2[e]; !in && !(e.GetID() != \"\" && len(s2) == len(s) && e.GetEvents() != nil) {\n\t\t\tres[e] = s[e]\n\t\t}\n\t}\n\treturn res\n}\n\nfunc (s simpleSet) IsSubset"),
 ("id-shared",E,"\t\t\tfor _, child := range item.children {\n\t\t\t\tif child.GetID() == \"\" {\n\t\t\t\t\tid, err := e.idGenerator.NewID()\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn err\n\t\t\t\t\t}","\t\t\tvar id string\n\t\t\tvar err error\n\t\t\tfor _, child := range item.children {\n\t\t\t\tif child.GetID() == \"\" {\n\t\t\t\t\tif id == \"\" {\n\t\t\t\t\t\tid, err = e.idGenerator.NewID()\n\t\t\t\t\t}\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn err\n\t\t\t\t\t}"),
 ("created-seconds",EV,"CreatedAt: time.Now(),","CreatedAt: time.Now().Truncate(time.Second),"),
 ("addevent-dedupe","domain.go","\te.events = append(e.events, NewDomainEvent(evt, opts...))","\tde := NewDomainEvent(evt, opts...)\n\tif n := len(e.events); n > 0 && e.events[n-1].Type == de.Type && string(e.events[n-1].Payload) == string(de.Payload) {\n\t\treturn\n\t}\n\te.events = append(e.events, de)"),
 ("bus-transid-first",B,"\t\tif tx != nil {\n\t\t\tpo.TransID","\t\tif tx != nil && i == 0 {\n\t\t\tpo.TransID"),
 ("bus-worker-return",B,"\t\t\t\tcb(ctx, po.Event, po.ServiceEvent)\n","\t\t\t\tcb(ctx, po.Event, po.ServiceEvent)\n\t\t\t\tif po.ServiceEvent.Status == ServiceEventStatusFailed {\n\t\t\t\t\treturn\n\t\t\t\t}\n"),
 ("bus-save-omit",B,"tx.Save(spo).Error","tx.Omit(\"next_time\").Save(spo).Error"),
 ("bus-save-columns",B,"tx.Save(spo).Error","tx.Model(spo).Updates(spo).Error"),
 ("bus-failed-clear",B,"\t\t\tspo.Status = ServiceEventStatusSuccess\n","\t\t\tspo.Status = ServiceEventStatusSuccess\n\t\t\tspo.FailedMessage = \"\"\n"),
 ("bus-retry-nexttime",B,"\t\tRetryTime:  time.Now(),\n\t}\n\n\tnewInfo","\t\tRetryTime:  spo.NextTime,\n\t}\n\n\tnewInfo"),
 ("bus-lastbatch",B,"\tif len(eventIDs) > 0 {\n\t\tif err = deleteService","\tif len(eventIDs) > 1 {\n\t\tif err = deleteService"),
 ("bus-limit-scan",B,"Order(\"event_id\").Limit(e.opt.LimitPerRun)","Order(\"next_time\").Limit(e.opt.LimitPerRun)"),
 ("bus-preced-sameid",B,"Where(\"id < ?\", eventPO.ID)","Where(\"id <> ?\", eventPO.ID)"),
 ("bus-tx-oldest",B,"\t\tfor _, tx := range trans {\n\t\t\te.checkTX(ctx, tx)\n\t\t}","\t\tfor _, tx := range trans {\n\t\t\tif len(tx.Events) == 0 {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\te.checkTX(ctx, tx)\n\t\t}"),
 ("bus-checktx-err",B,"\t\tif err := e.Commit(ctx); err != nil {\n\t\t\te.logger.Error(err, \"[eventbus] commit failed after tx check timeout\")\n\t\t}","\t\tif err := e.Commit(ctx); err != nil {\n\t\t\te.logger.Error(err, \"[eventbus] commit failed after tx check timeout\")\n\t\t\t_ = e.Rollback(ctx)\n\t\t}"),
 ("bus-begin-newctx",B,"return e.ctxWithTX(ctx, tx), nil","return e.ctxWithTX(context.Background(), tx), nil"),
 ("bus-onpost-sync",B,"\tgo func() {\n\t\t_ = e.handleEvents()\n\t}()","\tif res.Error == nil {\n\t\t_ = e.handleEvents()\n\t}"),
 ("bus-nowait-skip",B,"fn := func(tx *gorm.DB) (err error) {","fn := func(tx *gorm.DB) (err error) {\n\t\ttx = tx.Session(&gorm.Session{SkipDefaultTransaction: true})"),
 ("bus-expired-lax",B,"if precedingServiceEvent.Status == ServiceEventStatusInit {","if precedingServiceEvent.Status == ServiceEventStatusInit && precedingServiceEvent.RetryCount == 0 {"),
 ("bus-dispatch-empty",B,"\ttx := e.getTX(ctx)\n\tpos := make","\tif len(events) > 100 {\n\t\tevents = events[:100]\n\t}\n\ttx := e.getTX(ctx)\n\tpos := make"),
 ("bus-service-firstonly",B,"\t\tfor _, serviceName := range serviceNames {\n\t\t\tspos","\t\tfor _, serviceName := range serviceNames {\n\t\t\tif serviceName == \"\" {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tspos"),
 ("bus-retry-interval",B,"\t\tRetryTime:  lastTime.Add(c.Interval),","\t\tRetryTime:  lastTime.Add(c.Interval / time.Duration(info.RetryCount+1)),"),
 ("timer-runonce-utc",T,"\t\tNextTime: runTime,","\t\tNextTime: runTime.Truncate(time.Minute),"),
 ("timer-save-status",T,"tx.Save(job).Error","tx.Select(\"status\").Save(job).Error"),
 ("timer-skip-first",T,"\tif len(jobs) == 0 {","\tif len(jobs) > 0 && jobs[0].Cron == \"\" && jobs[0].Payload == nil {\n\t\tjobs = jobs[1:]\n\t}\n\tif len(jobs) == 0 {"),
 ("timer-ctx",T,"t.getCallback()(ctx, job.Key, job.Cron, job.Payload)","t.getCallback()(ctx, job.Key, job.Cron, append([]byte(nil), job.Payload[:len(job.Payload)/1]...))"),
 ("lock-since-le",L,"time.Since(lock.UpdatedAt) < r.ttl","time.Since(lock.UpdatedAt) < r.ttl-r.opt.RenewInterval"),
 ("lock-update-row",L,"\tlock.LockerID = lockerID\n\treturn &lock, nil","\treturn &lock, nil"),
 ("lock-unlock-res",L,"\"locker_id = ? and resource = ?\", l.LockerID, l.Resource","\"locker_id = ? or resource = ?\", l.LockerID, l.Resource"),
 ("lock-retry-stale",L,"\t\t\tkeyLock, err = r.lock(ctx, key)\n\t\t\treturn err","\t\t\tl, e := r.lock(ctx, key)\n\t\t\tif l != nil {\n\t\t\t\tkeyLock = l\n\t\t\t}\n\t\t\treturn e"),
 ("lock-run-once",L,"\tfn(subCtx)\n","\tif subCtx.Err() == nil {\n\t\tfn(subCtx)\n\t}\n"),
 ("x-update-save",X,"\t\t\t\tif len(fields) == 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}","\t\t\t\tif len(fields) == 0 {\n\t\t\t\t\treturn nil\n\t\t\t\t}"),
 ("x-del-one",X,"\t\t\tif len(a.Models) == 1 {","\t\t\tif len(a.Models) >= 1 && len(a.Models) < 3 {"),
 ("x-insert-batch",X,"return db.Create(pos.Interface()).Error","return db.CreateInBatches(pos.Interface(), 100).Error"),
 ("x-insert-conflict",X,"return db.Create(pos.Interface()).Error","return db.Session(&gorm.Session{}).Save(pos.Interface()).Error"),
 ("mem-drop",M_,"\t\te.ch <- evt\n","\t\tselect {\n\t\tcase e.ch <- evt:\n\t\tcase <-ctx.Done():\n\t\t\treturn nil\n\t\t}\n"),
 ("mem-latest",M_,"if cb := e.getCallback(); cb != nil {","if cb := e.getCallback(); cb != nil && ctx.Err() == nil {"),
 ("mem-cbonce",M_,"\trun := func() {\n\t\tfor {","\tcb0 := e.getCallback()\n\trun := func() {\n\t\tif cb0 == nil {\n\t\t\treturn\n\t\t}\n\t\tfor {"),
 ("walk-skipnil",S,"\t\t\tif err := walk(c, entity, f); err != nil {\n\t\t\t\treturn err\n\t\t\t}","\t\t\tif c.GetID() == \"\" && parent == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif err := walk(c, entity, f); err != nil {\n\t\t\t\treturn err\n\t\t\t}"),
 ("hook-ptr",E,"\t\tif saver, ok := entity.(IAfterUpdate); ok {","\t\tif saver, ok := entity.(IAfterUpdate); ok && entity.IsDirty() {"),
 ("nochange-return",E,"\t// 执行保存前的 hook\n","\tif len(changed) == 0 && len(e.snapshot) > 0 && e.options.DryRun {\n\t\treturn nil\n\t}\n\t// 执行保存前的 hook\n"),
 ("eventctx-first",E,"\t\t\te.eventCtx, err = txEventBus.DispatchBegin(ctx, txEvents...)","\t\t\tfor _, te := range txEvents {\n\t\t\t\te.eventCtx, err = txEventBus.DispatchBegin(ctx, te)\n\t\t\t}"),
 ("normal-first-err",E,"\t\tif len(normalEvents) > 0 {\n\t\t\tif err = ","\t\tif len(normalEvents) > 0 && (len(txEvents) == 0 || err == nil && len(normalEvents) >= 1 && e.eventCtx != ctx) {\n\t\t\tif err = "),
 ("wrongtype-skip",E,"\t\tif itemType == nil || itemType.Kind() != reflect.Ptr || itemVal.IsNil() {\n\t\t\treturn fmt.Errorf(\"children must be pointer and not nil\")","\t\tif itemType == nil {\n\t\t\tcontinue\n\t\t}\n\t\tif itemType.Kind() != reflect.Ptr || itemVal.IsNil() {\n\t\t\treturn fmt.Errorf(\"children must be pointer and not nil\")"),
 ("slice-reset",E,"\tentitiesVal := resultVal.Elem()\n","\tentitiesVal := reflect.MakeSlice(resultVal.Elem().Type(), 0, 0)\n"),
 ("build-emptyid-last",E,"\t\tfor _, r := range buildRoots {\n\t\t\tif r.GetID() == \"\" {","\t\tfor i, r := range buildRoots {\n\t\t\tif i == 0 && r.GetID() == \"\" {"),
 ("lockprefix2",E,"\"ddd_engine_%s\", id)","\"ddd_engine_%s\", strings.ToLower(id))"),
 ("initkeys-append",E,"\te.lockKeys = keys\n","\te.lockKeys = append(e.lockKeys, keys...)\n"),
 ("move-keep-first",S,"\t\t\t\t// 考虑需要判定一个新增，多个删除的情况，这里更新一下记录\n\t\t\t\tentities[entity] = item","\t\t\t\tdelete(entities, entity)"),
 ("recdel-parent",S,"\t\t\t\t\t\t\tparent:     entity,\n\t\t\t\t\t\t\tkey:        key,\n\t\t\t\t\t\t\tchildren:   deleted,","\t\t\t\t\t\t\tparent:     item.parent,\n\t\t\t\t\t\t\tkey:        key,\n\t\t\t\t\t\t\tchildren:   deleted,"),
]
