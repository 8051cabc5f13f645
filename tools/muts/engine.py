e='engine.go'; s='snapshot.go'; v='event.go'; d='domain.go'; c='command.go'
M=[
# C01
('tx-ctx-commit',e,'if err := e.executor.Commit(ctx); err != nil {','if err := e.executor.Commit(context.Background()); err != nil {'),
('tx-break-commit',e,'if result.Error != nil || result.Break {','if result.Error != nil {'),
('tx-repanic-lost',e,'''				panic(r)
			}
		}()
		result := f(ctx)''','''				e.logger.Error(fmt.Errorf("%v", r), "run panicked")
			}
		}()
		result := f(ctx)'''),
('tx-rollback-skip-locked',e,'''			if err := e.executor.RollBack(ctx); err != nil {
				e.logger.Error(err, "rollback failed", "err", err)
			}''','''			if !errors.Is(result.Error, context.Canceled) {
				if err := e.executor.RollBack(ctx); err != nil {
					e.logger.Error(err, "rollback failed", "err", err)
				}
			}'''),
('tx-ctx-inner',e,'''		ctx, err := e.executor.Begin(ctx)
		if err != nil {
			return ResultErrors(err)
		}''','''		txCtx, err := e.executor.Begin(ctx)
		if err != nil {
			return ResultErrors(err)
		}
		if e.options.DryRun {
			txCtx = ctx
		}
		ctx = txCtx'''),
('tx-commit-retry',e,'''		if err := e.executor.Commit(ctx); err != nil {
			result.Error = err''','''		err = e.executor.Commit(ctx)
		if errors.Is(err, context.DeadlineExceeded) {
			err = e.executor.Commit(ctx)
		}
		if err != nil {
			result.Error = err'''),
('tx-commit-empty',e,'		if err := e.executor.Commit(ctx); err != nil {\n','		if len(result.Actions) == 0 {\n			return result\n		}\n		if err := e.executor.Commit(ctx); err != nil {\n'),
# C02
('lock-prefix-dup',e,'			if lockKeys[i] == lockKeys[i-1] {','			if i > 1 && lockKeys[i] == lockKeys[i-1] {'),
('lock-sortdesc-mix',e,'		sort.Strings(lockKeys)\n','		sort.Slice(lockKeys, func(i, j int) bool { return len(lockKeys[i]) < len(lockKeys[j]) })\n'),
('lock-inner-tx',e,'''	do := e.do
	if e.options.WithTransaction {
		do = e.runWithTransaction(do)
	}

	if len(e.lockKeys) > 0 {
		do = e.runOnLock(do, e.lockKeys...)
	}
''','''	do := e.do
	if len(e.lockKeys) > 0 {
		do = e.runOnLock(do, e.lockKeys...)
	}
	if e.options.WithTransaction {
		do = e.runWithTransaction(do)
	}
'''),
('lock-unlock-break',e,'''				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}''','''				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
					return
				}'''),
('lock-only-many',e,'	if len(e.lockKeys) > 0 {','	if len(e.lockKeys) > 0 && !e.options.DryRun {'),
('lock-defer-late',e,'''		defer func() {
			for _, l := range ls {
				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}
		}()

		if lockErr != nil {
			return ResultErrors(lockErr)
		}
''','''		if lockErr != nil {
			return ResultErrors(lockErr)
		}
		defer func() {
			for _, l := range ls {
				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}
		}()
'''),
('lock-err-masked',e,'''				if lockErr != ErrEntityLocked {
					lockErr = fmt.Errorf("acquire lock failed: %w", err)
				}
				break''','''				if errors.Is(err, ErrEntityLocked) {
					break
				}
				lockErr = fmt.Errorf("acquire lock failed: %w", err)
				break'''),
('lock-nodefer',e,'''		defer func() {
			for _, l := range ls {
				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}
		}()

		if lockErr != nil {
			return ResultErrors(lockErr)
		}
		return f(ctx)''','''		var res *Result
		if lockErr != nil {
			res = ResultErrors(lockErr)
		} else {
			res = f(ctx)
		}
		for _, l := range ls {
			if err := e.locker.UnLock(ctx, l); err != nil {
				e.logger.Error(err, "unlock failed")
			}
		}
		return res'''),
# C03
('err-v',e,'lockErr = fmt.Errorf("acquire lock failed: %w", err)','lockErr = fmt.Errorf("acquire lock failed: %v", err)'),
('err-unwrap',e,'''	return e
}

type Result struct''','''	if len(e) > 0 {
		return e[:1]
	}
	return nil
}

type Result struct'''),
('err-joinfirst',e,'	return errors.Join(r.errs...)','	if len(r.errs) == 1 {\n		return r.errs[0]\n	}\n	return nil'),
('err-break-eq',e,'	if errors.Is(err, ErrBreak) {\n		return &Result{Break: true}','	if err == ErrBreak {\n		return &Result{Break: true}'),
('err-newid',e,'''					if err != nil {
						return err
					}
					child.SetID(id)''','''					if err != nil {
						e.logger.Error(err, "new id failed")
						continue
					}
					child.SetID(id)'''),
('err-notreg',e,'				if errors.Is(err, ErrEntityNotRegister) {\n					e.logger','				if op == OpDelete || errors.Is(err, ErrEntityNotRegister) {\n					e.logger'),
('err-flush',e,'	if err := e.flush(); err != nil {\n		return err\n	}\n\n	e.unDirty()','	if err := e.flush(); err != nil {\n		e.logger.Error(err, "flush failed")\n	}\n\n	e.unDirty()'),
('err-txbegin',e,'''			e.eventCtx, err = txEventBus.DispatchBegin(ctx, txEvents...)
			if err != nil {
				return err
			}''','''			e.eventCtx, err = txEventBus.DispatchBegin(ctx, txEvents...)'''),
('err-shadow-commit',e,'			result.Error = err\n			e.logger','			result := *result\n			result.Error = err\n			e.logger'),
# C04
('diff-nocreatedrec',s,'			for _, item := range created {\n				res = append(res, entityDiff(item, pool)...)\n			}\n','			for _, item := range created {\n				if item.GetID() == "" {\n					res = append(res, entityDiff(item, pool)...)\n				}\n			}\n'),
('diff-dirtyonly',s,'		for _, item := range remain {\n			res = append(res, entityDiff(item, pool)...)','		for _, item := range dirty {\n			res = append(res, entityDiff(item, pool)...)'),
('diff-missingkey',s,'			if _, in := childrenList[key]; !in {\n				keys','			if _, in := childrenList[key]; !in && len(childrenList) == 0 {\n				keys'),
('diff-len',s,'		if pool[parent] != nil && len(pool[parent].children[key]) > 0 {','		if pool[parent] != nil && len(pool[parent].children[key]) >= len(children) {'),
('diff-subset',s,'		created, remain, deleted := s1.Diff(s2)','		if len(s1) == len(s2) && len(s1) > 0 {\n			s2 = s1\n		}\n		created, remain, deleted := s1.Diff(s2)'),
('diff-tosliceidx',s,'	res := make([]IEntity, len(s))\n	i := 0\n	for e := range s {\n		res[i] = e\n		i++\n	}','	res := make([]IEntity, 0, len(s))\n	for e, i := range s {\n		if i < len(s) {\n			res = append(res, e)\n		}\n	}'),
# C05
('act-typekey',e,'			if _, in := typeActions[op][poType]; in {','			if poType = reflect.TypeOf(entity); typeActions[op][poType] != nil {'),
('act-order',e,'[]OpType{OpInsert, OpUpdate, OpDelete}','[]OpType{OpDelete, OpInsert, OpUpdate}'),
('act-nodelete',e,'			delete(typeActions[t], at)\n',''),
('act-prevappend',e,'			if op == OpUpdate {\n				typeActions','			if op == OpUpdate && e.snapshot[entity].po != nil {\n				typeActions'),
('act-prevfirst',e,'typeActions[op][poType].PrevModels = append(typeActions[op][poType].PrevModels, e.snapshot[entity].po)','typeActions[op][poType].PrevModels = append([]IModel{e.snapshot[entity].po}, typeActions[op][poType].PrevModels...)'),
('act-clearnil',e,'	case deleteChildren, clearChildren:\n		return OpDelete','	case deleteChildren, clearChildren:\n		return OpUpdate'),
('act-parent',e,'po, err := e.executor.Entity2Model(entity, item.parent, op)','po, err := e.executor.Entity2Model(entity, changes[0].parent, op)'),
# C06
('id-only-root',e,'		if item.changeType == newChildren {\n			for _, child','		if item.changeType != deleteChildren {\n			for _, child'),
('id-late',e,'''	if err := e.putNewID(changed); err != nil {
		return err
	}
	// 转换为持久化 Action 序列
	actions, err := e.makeActions(changed)
	if err != nil {
		return err
	}
''','''	// 转换为持久化 Action 序列
	actions, err := e.makeActions(changed)
	if err != nil {
		return err
	}
	if err := e.putNewID(changed); err != nil {
		return err
	}
'''),
('id-shared',e,'''			for _, child := range item.children {
				if child.GetID() == "" {
					id, err := e.idGenerator.NewID()
					if err != nil {
						return err
					}
					child.SetID(id)''','''			id, err := e.idGenerator.NewID()
			if err != nil {
				return err
			}
			for _, child := range item.children {
				if child.GetID() == "" {
					child.SetID(id)'''),
('id-gen-default',e,'					id, err := e.idGenerator.NewID()','					id, err := e.options.IDGenerator.NewID()'),
# C07
('hook-after-skip',e,'''	// 执行保存后的 hook
	for _, c := range changed {
		for''','''	// 执行保存后的 hook
	for _, c := range changed {
		if len(actions) == 0 {
			break
		}
		for'''),
('hook-before-late',e,'''	// 执行保存前的 hook
	for _, c := range changed {
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, true); err != nil {
				return err
			}
		}
	}

	if err := e.putNewID(changed); err != nil {
		return err
	}
''','''	if err := e.putNewID(changed); err != nil {
		return err
	}
	// 执行保存前的 hook
	for _, c := range changed {
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, true); err != nil {
				return err
			}
		}
	}
'''),
('hook-after-ignore',e,'			if err := execHook(ctx, entity, c.changeType, false); err != nil {\n				return err\n			}','			if err := execHook(ctx, entity, c.changeType, false); err != nil {\n				e.logger.Error(err, "after hook")\n			}'),
('hook-kind',e,'	} else if ct == deleteChildren && !isBefore {\n		if saver, ok := entity.(IAfterDelete)','	} else if ct != newChildren && !isBefore {\n		if saver, ok := entity.(IAfterDelete)'),
('hook-dryrun-ctx',e,'execHook(ctx, entity, c.changeType, true)','execHook(context.TODO(), entity, c.changeType, true)'),
# C08
('base-share',e,'children: childrenSnapshot(children),','children: children,'),
('base-copylist',e,'		v2 := make([]IEntity, len(v))\n		copy(v2, v)\n		snapshot[k] = v2','		snapshot[k] = v[:len(v):len(v)]'),
('base-undirty-roots',e,'''	_ = walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
		entity.UnDirty()''','''	_ = walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
		if parent != nil && parent != e.meta {
			return nil
		}
		entity.UnDirty()'''),
('base-notreset',e,'	e.snapshot = entitySnapshotPool{}\n	return','	return'),
('base-overwrite',e,'			if _, in := e.snapshot[entity]; in {\n				return nil\n			}\n			if _, in := loaded','			if _, in := loaded'),
('base-noundirty',e,'	e.unDirty()\n	return nil','	if !e.options.DryRun {\n		e.unDirty()\n	}\n	return nil'),
('base-rootsreplace',e,'	rootsLoaded["meta"] = append(rootsLoaded["meta"], roots...)','	rootsLoaded["meta"] = append([]IEntity{}, e.meta.roots...)'),
# C09
('dry-query',e,'	if e.options.DryRun {\n		return nil\n	}\n	for _, a := range actions {','	for _, a := range actions {\n		if e.options.DryRun && a.Op != OpDelete {\n			continue\n		}'),
('dry-persist',e,'		if err := e.exec(ctx, []*Action{action}); err != nil {','		if err := e.executor.Exec(ctx, action); err != nil {'),
('dry-tx',e,'''	if e.options.DryRun {
		return nil
	}
	if !e.options.WithTransaction {''','''	if !e.options.WithTransaction {'''),
# C10
('evt-key',e,'			eventMap[evt.ID] = evt\n		}\n		return\n	})\n	// 收','			if _, in := eventMap[string(evt.Type)+evt.Sender]; in {\n				continue\n			}\n			eventMap[string(evt.Type)+evt.Sender] = evt\n		}\n		return\n	})\n	// 收'),
('evt-desc',e,'events[i].ID < events[j].ID','events[i].ID > events[j].ID'),
('evt-trunc',e,'events[i].CreatedAt.Before(events[j].CreatedAt) ||','events[i].CreatedAt.Truncate(1000).Before(events[j].CreatedAt.Truncate(1000)) ||'),
('evt-delnochild',e,'''		_ = walk(del, nil, func(entity, parent IEntity, children map[string][]IEntity) (err error) {
			for _, evt := range entity.GetEvents() {
				eventMap[evt.ID] = evt
			}
			return
		})''','''		for _, evt := range del.GetEvents() {
			eventMap[evt.ID] = evt
		}'''),
# C11
('disp-twice',e,'''			if err = txEventBus.Dispatch(ctx, normalEvents...); err != nil {
				return err
			}''','''			if err = txEventBus.Dispatch(ctx, normalEvents...); err != nil {
				err = txEventBus.Dispatch(ctx, normalEvents...)
			}
			if err != nil {
				return err
			}'''),
('disp-persist-type',e,'''		Op:         OpInsert,
		Models:     pos,
		PrevModels: []IModel{},''','''		Op:         OpUpdate,
		Models:     pos,
		PrevModels: []IModel{},'''),
('disp-persist-holes',e,'		pos[i] = po\n','		if po != nil {\n			pos[i] = po\n		}\n'),
('disp-persist-after',e,'	if len(events) > 0 && e.options.EventPersist != nil {','	if len(events) > 1 && e.options.EventPersist != nil {'),
# C12
('tx-send-normal-first',e,'''		if evt.SendType == SendTypeTransaction {
			txEvents''','''		if evt.SendType == SendTypeTransaction && evt.Sender != "" {
			txEvents'''),
('tx-msg-rollback-panic',e,'			if e.eventBus != nil && e.eventCtx != nil {\n				if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {\n					_ = txEventBus.Rollback','			if e.eventBus != nil && e.eventCtx != nil && !result.Break {\n				if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {\n					_ = txEventBus.Rollback'),
('tx-msg-ctx',e,'_ = txEventBus.Commit(e.eventCtx)','_ = txEventBus.Commit(ctx)'),
('tx-msg-before',e,'''		if err := e.executor.Commit(ctx); err != nil {
			result.Error = err''','''		if e.eventCtx != nil && len(result.Actions) == 0 {
			if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {
				_ = txEventBus.Commit(e.eventCtx)
				e.eventCtx = nil
			}
		}
		if err := e.executor.Commit(ctx); err != nil {
			result.Error = err'''),
# C16
('mis-add',e,'	for _, e := range w.roots {\n		if e == root {\n			return ErrEntityRepeated\n		}\n	}\n\n	w.roots = append','	for _, e := range w.roots {\n		if e == root {\n			return nil\n		}\n	}\n\n	w.roots = append'),
('mis-remove',e,'	if i == len(w.roots) {\n		return ErrEntityNotFound\n	}\n','	if i == len(w.roots) && i > 0 {\n		return ErrEntityNotFound\n	}\n'),
('mis-save',e,'	if err := r.getError(); err != nil {\n		return err\n	}\n	return r.stage.commit(ctx)','	return r.stage.commit(ctx)'),
('mis-get',e,'	if r.stage.meta.Has(root) {\n		return ErrEntityRepeated\n	}\n	// 先','	// 先'),
('mis-container',e,'		} else if len(errs) > 0 {\n			return errs\n		}','		} else if len(errs) > 1 {\n			return errs\n		}'),
('mis-removepartial',e,'''		if err := r.stage.meta.Remove(root); err != nil {
			r.appendError(err)
			return
		}
	}
}''','''		if err := r.stage.meta.Remove(root); err != nil {
			return
		}
	}
}'''),
# C17
('post-break',e,'	if res.Error == nil && len(e.options.PostSaveHooks) > 0 {','	if len(e.options.PostSaveHooks) > 0 && (res.Error == nil || errors.Is(res.Error, context.Canceled)) {'),
('post-inside',e,'		return f(ctx)\n	}\n}','		res := f(ctx)\n		if res.Error == nil {\n			for _, h := range e.options.PostSaveHooks {\n				h(ctx, res)\n			}\n			e.options.PostSaveHooks = nil\n		}\n		return res\n	}\n}'),
('post-reverse',e,'		for _, h := range e.options.PostSaveHooks {\n			h(ctx, res)','		for i := len(e.options.PostSaveHooks) - 1; i >= 0; i-- {\n			h := e.options.PostSaveHooks[i]\n			h(ctx, res)'),
('post-copy',e,'			h(ctx, res)','			r := *res\n			r.Error = nil\n			h(ctx, &Result{Actions: r.Actions})'),
# C18
('move-two',s,'				entities[entity] = item\n			} else','				delete(entities, entity)\n			} else'),
('move-parent',s,'''				changedItems = append(changedItems, &entityChanged{
					changeType: dirtyChildren,
					parent:     prev.parent,''','''				changedItems = append(changedItems, &entityChanged{
					changeType: dirtyChildren,
					parent:     item.parent,'''),
('move-nocopy',s,'		for _, entity := range append([]IEntity{}, item.children...) {\n			prev','		for _, entity := range item.children {\n			prev'),
('move-orphanshallow',s,'					orphans[c] = true\n					markOrphans(c)','					orphans[c] = true'),
('move-dirty-twice',s,'			if prev.changeType == newChildren && item.changeType == deleteChildren {','			if prev.changeType == newChildren && item.changeType != newChildren {'),
# C19
('rec-parent',s,'							parent:     entity,\n							key:        key,\n							children:   deleted,','							parent:     item.parent,\n							key:        key,\n							children:   deleted,'),
('rec-break',s,'					for key, entities := range children {\n						deleted','					for key, entities := range children {\n						if len(entities) == 0 {\n							break\n						}\n						deleted'),
('rec-opt',e,'	if e.options.RecursiveDelete {','	if e.options.RecursiveDelete || len(changed) == 1 {'),
# C20
('cmd-key',e,'			keys = initKeys\n','			keys = append(e.lockKeys, initKeys...)\n'),
('cmd-actnoflush',e,'		repo.stage.meta.SetChildren(buildRoots)\n\n		// 保存父子实体关系链\n		if err = repo.stage.flush(); err != nil {\n			return err\n		}\n','		repo.stage.meta.SetChildren(buildRoots)\n\n		// 保存父子实体关系链\n		if len(buildRoots) > 1 {\n			if err = repo.stage.flush(); err != nil {\n				return err\n			}\n		}\n'),
('cmd-postsave',e,'		if cmdPostSave, ok := cmd.(ICommandPostSave); ok {\n			options','		if cmdPostSave, ok := cmd.(ICommandPostSave); ok && len(keys) > 0 {\n			options'),
('cmd-initerr',e,'			if err != nil {\n				return ResultErrOrBreak(err)\n			}\n			keys = initKeys','			if err != nil && !errors.Is(err, ErrEntityNotFound) {\n				return ResultErrOrBreak(err)\n			}\n			keys = initKeys'),
# C21
('load-first',e,'queryPO := posPointer.Elem().Index(0).Interface()','queryPO := posPointer.Elem().Index(posPointer.Elem().Len() - 1).Interface()'),
('load-po',e,'	return e.executor.Model2Entity(queryPO.(IModel), entity)','	_ = queryPO\n	return e.executor.Model2Entity(po, entity)'),
('load-skip',e,'	for i := 0; i < posPointer.Elem().Len(); i++ {\n		newEntity := reflect.New(eType)','	newEntity := reflect.New(eType)\n	for i := 0; i < posPointer.Elem().Len(); i++ {'),
('load-snaperr',e,'	if err := r.stage.updateSnapshot(root); err != nil {\n		return err\n	}\n	return r.stage.meta.Add(root)','	if err := r.stage.meta.Add(root); err != nil {\n		return err\n	}\n	return r.stage.updateSnapshot(root)'),
('load-nfchild',e,'				if errors.Is(err, ErrEntityNotFound) {\n					itemVal.Elem().SetZero()\n				} else','				if err != nil {\n					itemVal.Elem().SetZero()\n				} else'),
# C49
('res-order',e,'	e.result.Actions = append(e.result.Actions, actions...)','	e.result.Actions = append(actions, e.result.Actions...)'),
('res-eager',e,'	e.result.Actions = append(e.result.Actions, actions...)\n	return nil','	e.result.Actions = actions\n	return nil'),
]
