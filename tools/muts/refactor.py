e='engine.go'; s='snapshot.go'; B='eventbus/mysql/eventbus.go'; X='executor/mysql/executor.go'; L='lock/db/sql.go'; T='d_timer/sql/timer.go'; TM='d_timer/sql/model.go'; MM='eventbus/mem/eventbus.go'; EV='event.go'; R='lock/redis/redis.go'
M=[
('ok-sliceset',s,'''func (s simpleSet) Diff(s2 simpleSet) simpleSet {
	res := simpleSet{}
	for e := range s {
		if _, in := s2[e]; !in {
			res[e] = s[e]
		}
	}
	return res
}''','''func (s simpleSet) filter(keep func(IEntity) bool) simpleSet {
	res := make(simpleSet, len(s))
	for e, i := range s {
		if keep(e) {
			res[e] = i
		}
	}
	return res
}

func (s simpleSet) has(e IEntity) bool {
	_, in := s[e]
	return in
}

func (s simpleSet) Diff(s2 simpleSet) simpleSet {
	return s.filter(func(e IEntity) bool { return !s2.has(e) })
}''',s,'''	res := simpleSet{}
	for e := range s {
		if _, in := s2[e]; in {
			res[e] = s[e]
		}
	}

	return res
''','''	return s.filter(s2.has)
'''),
('ok-diffslices',s,'''		s1 := makeEntitySet(children)
		s2 := simpleSet{}
		if pool[parent] != nil && len(pool[parent].children[key]) > 0 {
			s2 = makeEntitySet(pool[parent].children[key])
		}
		created, remain, deleted := s1.Diff(s2).ToSlice(), s1.Inter(s2).ToSlice(), s2.Diff(s1).ToSlice()
''','''		var before []IEntity
		if snap := pool[parent]; snap != nil {
			before = snap.children[key]
		}
		s1, s2 := makeEntitySet(children), makeEntitySet(before)
		var created, remain, deleted []IEntity
		for _, c := range s1.ToSlice() {
			if _, in := s2[c]; in {
				remain = append(remain, c)
			} else {
				created = append(created, c)
			}
		}
		for _, c := range s2.ToSlice() {
			if _, in := s1[c]; !in {
				deleted = append(deleted, c)
			}
		}
'''),
('ok-toslice-sort',s,'''	sort.SliceStable(res, func(i, j int) bool {
		return s[res[i]] < s[res[j]]
	})
	return res''','''	sort.Slice(res, func(i, j int) bool {
		a, b := s[res[i]], s[res[j]]
		return b > a
	})
	return res'''),
('ok-actions-list',e,'''	typeActions := make(map[OpType]map[reflect.Type]*Action, 3)
	poTypes := []reflect.Type{}
''','''	type actionKey struct {
		op OpType
		t  reflect.Type
	}
	typeActions := map[actionKey]*Action{}
	keys := []actionKey{}
''',e,'''			poType := reflect.TypeOf(po)
			poTypes = append(poTypes, poType)
			if _, in := typeActions[op]; !in {
				typeActions[op] = map[reflect.Type]*Action{}
			}

			if _, in := typeActions[op][poType]; in {
				typeActions[op][poType].Models = append(typeActions[op][poType].Models, po)
			} else {
				typeActions[op][poType] = &Action{
					Op:     op,
					Models: []IModel{po},
				}
			}
			if op == OpUpdate {
				typeActions[op][poType].PrevModels = append(typeActions[op][poType].PrevModels, e.snapshot[entity].po)
			}
''','''			k := actionKey{op, reflect.TypeOf(po)}
			a := typeActions[k]
			if a == nil {
				a = &Action{Op: op}
				typeActions[k] = a
				keys = append(keys, k)
			}
			a.Models = append(a.Models, po)
			if op == OpUpdate {
				a.PrevModels = append(a.PrevModels, e.snapshot[entity].po)
			}
''',e,'''		for _, at := range poTypes {
			if _, in := typeActions[t][at]; !in {
				continue
			}
			actions = append(actions, typeActions[t][at])
			delete(typeActions[t], at)
		}
''','''		for _, k := range keys {
			if k.op == t {
				actions = append(actions, typeActions[k])
			}
		}
'''),
('ok-collect-helper',e,'''	eventMap := make(map[string]*DomainEvent, 0)
	_ = walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) (err error) {
		for _, evt := range entity.GetEvents() {
			eventMap[evt.ID] = evt
		}
		return
	})
	// 收集已删除的实体发送的事件
	for _, del := range e.meta.GetDeleted() {
		_ = walk(del, nil, func(entity, parent IEntity, children map[string][]IEntity) (err error) {
			for _, evt := range entity.GetEvents() {
				eventMap[evt.ID] = evt
			}
			return
		})
	}
	events := make([]*DomainEvent, 0)
	for _, evt := range eventMap {
		events = append(events, evt)
	}
''','''	events := make([]*DomainEvent, 0)
	seen := map[string]bool{}
	collect := func(entity, _ IEntity, _ map[string][]IEntity) error {
		for _, evt := range entity.GetEvents() {
			if !seen[evt.ID] {
				seen[evt.ID] = true
				events = append(events, evt)
			}
		}
		return nil
	}
	for _, root := range append([]IEntity{e.meta}, e.meta.GetDeleted()...) {
		_ = walk(root, nil, collect)
	}
'''),
('ok-sort-named',e,'''	sort.SliceStable(events, func(i, j int) bool {
		return events[i].CreatedAt.Before(events[j].CreatedAt) ||
			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)
	})
	return events
}
''','''	sort.Sort(byTime(events))
	return events
}

type byTime []*DomainEvent

func (b byTime) Len() int      { return len(b) }
func (b byTime) Swap(i, j int) { b[i], b[j] = b[j], b[i] }
func (b byTime) Less(i, j int) bool {
	if b[i].CreatedAt.Equal(b[j].CreatedAt) {
		return b[i].ID < b[j].ID
	}
	return b[i].CreatedAt.Before(b[j].CreatedAt)
}
'''),
('ok-sort-ifs',e,'''		return events[i].CreatedAt.Before(events[j].CreatedAt) ||
			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)
''','''		x, y := events[i], events[j]
		if !x.CreatedAt.Equal(y.CreatedAt) {
			return y.CreatedAt.After(x.CreatedAt)
		}
		return x.ID < y.ID
'''),
('ok-hook-switch',e,'''	if ct == newChildren && isBefore {
		if saver, ok := entity.(IBeforeCreate); ok {
			if err := saver.BeforeCreate(ctx); err != nil {
				return err
			}
		}
	} else if ct == newChildren && !isBefore {
		if saver, ok := entity.(IAfterCreate); ok {
			if err := saver.AfterCreate(ctx); err != nil {
				return err
			}
		}
	} else if ct == dirtyChildren && isBefore {''','''	switch {
	case ct == newChildren && isBefore:
		saver, ok := entity.(IBeforeCreate)
		if !ok {
			return nil
		}
		return saver.BeforeCreate(ctx)
	case ct == newChildren:
		if saver, ok := entity.(IAfterCreate); ok {
			return saver.AfterCreate(ctx)
		}
		return nil
	}
	if ct == dirtyChildren && isBefore {'''),
('ok-persist-helper',e,'''	for _, c := range changed {
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, true); err != nil {
				return err
			}
		}
	}
''','''	if err := execHooks(ctx, changed, true); err != nil {
		return err
	}
''',e,'''	for _, c := range changed {
		for _, entity := range c.children {
			if err := execHook(ctx, entity, c.changeType, false); err != nil {
				return err
			}
		}
	}
''','''	if err := execHooks(ctx, changed, false); err != nil {
		return err
	}
''',e,'''func execHook(ctx''','''func execHooks(ctx context.Context, changed []*entityChanged, before bool) error {
	for i := range changed {
		c := changed[i]
		for j := 0; j < len(c.children); j++ {
			if err := execHook(ctx, c.children[j], c.changeType, before); err != nil {
				return err
			}
		}
	}
	return nil
}

func execHook(ctx'''),
('ok-do-methods',e,'''	err = e.persist(ctx)
	if err != nil {
		return ResultErrors(err)
	}

	events := e.collectEvents()
	if len(events) > 0 && e.options.EventPersist != nil {
		action, err := e.makeEventPersistAction(events)
		if err != nil {
			return ResultErrors(err)
		}
		if err := e.exec(ctx, []*Action{action}); err != nil {
			return ResultError(err)
		}
	}

	// 发送领域事件
	if len(events) > 0 {
		if e.eventBus == nil {
			return ResultErrors(ErrNoEventBusFound)
		}
		if err := e.dispatchEvents(ctx, events); err != nil {
			return ResultErrors(err)
		}
	}

	return e.result
}
''','''	if err = e.persist(ctx); err == nil {
		err = e.handOver(ctx, e.collectEvents())
	}
	if err != nil {
		return ResultErrors(err)
	}
	return e.result
}

func (e *Stage) handOver(ctx context.Context, events []*DomainEvent) error {
	if len(events) == 0 {
		return nil
	}
	if e.options.EventPersist != nil {
		action, err := e.makeEventPersistAction(events)
		if err != nil {
			return err
		}
		if err = e.exec(ctx, []*Action{action}); err != nil {
			return err
		}
	}
	if e.eventBus == nil {
		return ErrNoEventBusFound
	}
	return e.dispatchEvents(ctx, events)
}
'''),
('ok-lock-reverse',e,'''			for _, l := range ls {
				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}
''','''			for i := len(ls) - 1; i >= 0; i-- {
				if err := e.locker.UnLock(ctx, ls[i]); err != nil {
					e.logger.Error(err, "unlock failed", "i", i)
				}
			}
'''),
('ok-lock-copy',e,'''		sort.Strings(lockKeys)
		for i := 1; i < len(lockKeys); i++ {
			if lockKeys[i] == lockKeys[i-1] {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", lockKeys[i]))
			}
		}
''','''		lockKeys := append([]string(nil), lockKeys...)
		sort.Strings(lockKeys)
		last := ""
		for i, k := range lockKeys {
			if i > 0 && k == last {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", k))
			}
			last = k
		}
'''),
('ok-lock-set',e,'''		for i := 1; i < len(lockKeys); i++ {
			if lockKeys[i] == lockKeys[i-1] {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", lockKeys[i]))
			}
		}
''','''		seen := make(map[string]struct{}, len(lockKeys))
		for _, k := range lockKeys {
			if _, dup := seen[k]; dup {
				return ResultErrors(fmt.Errorf("lockKey(%s) repeated", k))
			}
			seen[k] = struct{}{}
		}
'''),
('ok-lock-defer-each',e,'''		var lockErr error
		ls := make([]interface{}, 0)
		for _, id := range lockKeys {
			l, err := e.locker.Lock(ctx, fmt.Sprintf("ddd_engine_%s", id))
			if err != nil {
				if lockErr != ErrEntityLocked {
					lockErr = fmt.Errorf("acquire lock failed: %w", err)
				}
				break
			}
			ls = append(ls, l)
		}
		defer func() {
			for _, l := range ls {
				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}
		}()

		if lockErr != nil {
			return ResultErrors(lockErr)
		}
		return f(ctx)
''','''		for _, id := range lockKeys {
			l, err := e.locker.Lock(ctx, "ddd_engine_"+id)
			if err != nil {
				return ResultErrors(fmt.Errorf("acquire lock failed: %w", err))
			}
			defer func() {
				e.unlock(ctx, l)
			}()
		}
		return f(ctx)
''',e,'''func (e *Stage) runWithTransaction(''','''func (e *Stage) unlock(ctx context.Context, l interface{}) {
	if err := e.locker.UnLock(ctx, l); err != nil {
		e.logger.Error(err, "unlock failed")
	}
}

func (e *Stage) runWithTransaction('''),
('ok-lock-recursive',e,'''		var lockErr error
		ls := make([]interface{}, 0)
		for _, id := range lockKeys {
			l, err := e.locker.Lock(ctx, fmt.Sprintf("ddd_engine_%s", id))
			if err != nil {
				if lockErr != ErrEntityLocked {
					lockErr = fmt.Errorf("acquire lock failed: %w", err)
				}
				break
			}
			ls = append(ls, l)
		}
		defer func() {
			for _, l := range ls {
				if err := e.locker.UnLock(ctx, l); err != nil {
					e.logger.Error(err, "unlock failed")
				}
			}
		}()

		if lockErr != nil {
			return ResultErrors(lockErr)
		}
		return f(ctx)
''','''		release, err := e.acquire(ctx, lockKeys)
		defer release()
		if err != nil {
			return ResultErrors(err)
		}
		return f(ctx)
''',e,'''func (e *Stage) runWithTransaction(''','''func (e *Stage) acquire(ctx context.Context, keys []string) (release func(), err error) {
	held := make([]interface{}, 0, len(keys))
	release = func() {
		for _, l := range held {
			if err := e.locker.UnLock(ctx, l); err != nil {
				e.logger.Error(err, "unlock failed")
			}
		}
	}
	for _, id := range keys {
		l, err := e.locker.Lock(ctx, fmt.Sprintf("ddd_engine_%s", id))
		if err != nil {
			return release, fmt.Errorf("acquire lock failed: %w", err)
		}
		held = append(held, l)
	}
	return release, nil
}

func (e *Stage) runWithTransaction('''),
('ok-tx-split',e,'''		result := f(ctx)
		if result.Error != nil || result.Break {
			if err := e.executor.RollBack(ctx); err != nil {
				e.logger.Error(err, "rollback failed", "err", err)
			}
			// 回滚消息事务
			if e.eventBus != nil && e.eventCtx != nil {
				if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {
					_ = txEventBus.Rollback(e.eventCtx)
				}
			}
			return result
		}
''','''		result := f(ctx)
		if failed := result.Error != nil || result.Break; failed {
			e.rollback(ctx)
			return result
		}
''',e,'''func (e *Stage) Save(ctx''','''func (e *Stage) rollback(ctx context.Context) {
	if err := e.executor.RollBack(ctx); err != nil {
		e.logger.Error(err, "rollback failed", "err", err)
	}
	if bus := e.txBus(); bus != nil && e.eventCtx != nil {
		if err := bus.Rollback(e.eventCtx); err != nil {
			e.logger.Error(err, "rollback of the bus failed")
		}
	}
}

func (e *Stage) txBus() ITransactionEventBus {
	bus, _ := e.eventBus.(ITransactionEventBus)
	return bus
}

func (e *Stage) Save(ctx'''),
('ok-tx-finished-flag',e,'''		defer func() {
			if r := recover(); r != nil {
				if err := e.executor.RollBack(ctx); err != nil {
					e.logger.Error(err, "rollback failed")
				}
				panic(r)
			}
		}()
		result := f(ctx)
''','''		returned := false
		defer func() {
			if returned {
				return
			}
			if err := e.executor.RollBack(ctx); err != nil {
				e.logger.Error(err, "rollback failed")
			}
		}()
		result := f(ctx)
		returned = true
'''),
('ok-save-order',e,'''	do := e.do
	if e.options.WithTransaction {
		do = e.runWithTransaction(do)
	}

	if len(e.lockKeys) > 0 {
		do = e.runOnLock(do, e.lockKeys...)
	}

	res := do(ctx)
	if res.Error == nil && len(e.options.PostSaveHooks) > 0 {
		for _, h := range e.options.PostSaveHooks {
			h(ctx, res)
		}
	}
	return res
''','''	res := e.runOnLock(func(ctx context.Context) *Result {
		if !e.options.WithTransaction {
			return e.do(ctx)
		}
		return e.runWithTransaction(e.do)(ctx)
	}, e.lockKeys...)(ctx)
	if res.Error != nil {
		return res
	}
	for i := range e.options.PostSaveHooks {
		e.options.PostSaveHooks[i](ctx, res)
	}
	return res
'''),
('ok-newstage',e,'''	return &Stage{
		locker:      e.locker,''','''	opts := e.options
	_ = opts
	return &Stage{
		locker:      e.options.Locker,''',e,'''		options:     e.options,
		logger:      e.logger,
	}
}''','''		options:     opts,
		logger:      opts.Logger,
	}
}'''),
('ok-opts-apply',e,'''	for _, opt := range opts {
		opt.ApplyToOptions(&options)
	}
	eventBus := options.EventBus
	eventBus.RegisterEventHandler(onEvent)
	if txEB, ok := eventBus.(ITransactionEventBus); ok {
		txEB.RegisterEventTXChecker(onTXChecker)
	}
	timer := options.Timer
	timer.RegisterTimerHandler(onTimer)
''','''	options.apply(opts)
	options.wire()
	eventBus, timer := options.EventBus, options.Timer
''',e,'''	for _, opt := range opts {
		opt.ApplyToOptions(&e.options)
	}

	eventBus := e.options.EventBus
	eventBus.RegisterEventHandler(onEvent)
	if txEB, ok := eventBus.(ITransactionEventBus); ok {
		txEB.RegisterEventTXChecker(onTXChecker)
	}
	e.eventBus = eventBus

	timer := e.options.Timer
	timer.RegisterTimerHandler(onTimer)
''','''	e.options.apply(opts)
	e.options.wire()
	e.eventBus = e.options.EventBus
	timer := e.options.Timer
''',e,'''type Option interface {''','''func (o *Options) apply(opts []Option) {
	for _, opt := range opts {
		opt.ApplyToOptions(o)
	}
}

// wire 注册回调
func (o *Options) wire() {
	RegisterEventBus(o.EventBus)
	o.Timer.RegisterTimerHandler(onTimer)
}

type Option interface {'''),
('ok-get-inline',e,'''	if err := r.stage.updateSnapshot(root); err != nil {
		return err
	}
	return r.stage.meta.Add(root)
}

// CustomGet''','''	err := r.stage.updateSnapshot(root)
	if err == nil {
		err = r.stage.meta.Add(root)
	}
	return err
}

// CustomGet'''),
('ok-remove-loop',e,'''	i := 0
	for _, item := range w.roots {
		if item != root {
			w.roots[i] = item
			i++
		}
	}
	if i == len(w.roots) {
		return ErrEntityNotFound
	}
	w.roots = w.roots[:i]
	w.deleted''','''	at := -1
	for i, item := range w.roots {
		if item == root {
			at = i
			break
		}
	}
	if at < 0 {
		return ErrEntityNotFound
	}
	w.roots = append(w.roots[:at], w.roots[at+1:]...)
	w.deleted'''),
('ok-remove-new',e,'''	i := 0
	for _, item := range w.roots {
		if item != root {
			w.roots[i] = item
			i++
		}
	}
	if i == len(w.roots) {
		return ErrEntityNotFound
	}
	w.roots = w.roots[:i]
	w.deleted''','''	if !w.Has(root) {
		return ErrEntityNotFound
	}
	rest := make([]IEntity, 0, len(w.roots))
	for _, item := range w.roots {
		if item != root {
			rest = append(rest, item)
		}
	}
	w.roots = rest
	w.deleted'''),
('ok-errlist',e,'''	errs := make([]string, 0)
	for _, err := range e {
		errs = append(errs, err.Error())
	}
	return strings.Join(errs, ", ")''','''	var b strings.Builder
	for i, err := range e {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(err.Error())
	}
	return b.String()'''),
('ok-dispatch-split',e,'''	if txEventBus, ok := e.eventBus.(ITransactionEventBus); ok {
		if len(txEvents) > 0 {
			e.eventCtx, err = txEventBus.DispatchBegin(ctx, txEvents...)
			if err != nil {
				return err
			}
		}

		if len(normalEvents) > 0 {
			if err = txEventBus.Dispatch(ctx, normalEvents...); err != nil {
				return err
			}
		}
		return
	} else {
		// 如果 eventbus 不支持事务，所有事件默认按照普通方式发送
		return e.eventBus.Dispatch(ctx, events...)
	}
''','''	txEventBus, ok := e.eventBus.(ITransactionEventBus)
	if !ok {
		return e.eventBus.Dispatch(ctx, events...)
	}
	if len(txEvents) > 0 {
		eventCtx, err := txEventBus.DispatchBegin(ctx, txEvents...)
		e.eventCtx = eventCtx
		if err != nil {
			return err
		}
	}
	if len(normalEvents) == 0 {
		return nil
	}
	return txEventBus.Dispatch(ctx, normalEvents...)
'''),
('ok-walk-iter',s,'''	for _, entities := range children {
		for _, c := range entities {
			if err := walk(c, entity, f); err != nil {
				return err
			}
		}
	}
	return nil
}
''','''	keys := make([]string, 0, len(children))
	for k := range children {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, c := range children[k] {
			if err := walk(c, entity, f); err != nil {
				return err
			}
		}
	}
	return nil
}
'''),
('ok-event-mutex-rw',EV,'''func hasEventHandler(t EventType) bool {
	eventBusMu.Lock()
	defer eventBusMu.Unlock()

	_, ok := eventRouter[t]
	return ok
}''','''func hasEventHandler(t EventType) bool {
	return len(handlersOf(t)) > 0
}

func handlersOf(t EventType) []*eventHandler {
	eventBusMu.Lock()
	defer eventBusMu.Unlock()
	return eventRouter[t]
}''',EV,'''	eventBusMu.Lock()
	handlers := eventRouter[evt.Type]
	eventBusMu.Unlock()
''','''	handlers := handlersOf(evt.Type)
'''),
('ok-event-decode',EV,'''		var bizEvt reflect.Value
		if h.eventType == domainEventType {
			bizEvt = reflect.ValueOf(evt)
		} else {
			bizEvt = reflect.New(h.eventType)
			if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
				return err
			}
		}

		outs''','''		bizEvt, err := h.arg(evt)
		if err != nil {
			return fmt.Errorf("decode %s: %w", evt.Type, err)
		}
		outs''',EV,'''	var bizEvt reflect.Value
	if checker.eventType == domainEventType {
		bizEvt = reflect.ValueOf(evt)
	} else {
		bizEvt = reflect.New(checker.eventType)
		if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
			return TXRollBack
		}
	}
''','''	bizEvt, err := checker.arg(evt)
	if err != nil {
		return TXRollBack
	}
''',EV,'''// RegisterEventBus 注册事件总线''','''func (h *eventHandler) arg(evt *DomainEvent) (reflect.Value, error) {
	if h.eventType == domainEventType {
		return reflect.ValueOf(evt), nil
	}
	arg := reflect.New(h.eventType)
	err := json.Unmarshal(evt.Payload, arg.Interface())
	return arg, err
}

// RegisterEventBus 注册事件总线'''),
('ok-event-syncmap',EV,'''	eventBusMu.Lock()
	checker := eventTXCheckerRouter[evt.Type]
	eventBusMu.Unlock()
''','''	v, _ := eventTXCheckers.Load(evt.Type)
	checker, _ := v.(*eventHandler)
''',EV,'''	if eventTXCheckerRouter[t] != nil {
		panic(fmt.Sprintf("event tx checker of type(%s) repeated!", t))
	}
''','',EV,'''	eventTXCheckerRouter[t] = &eventHandler{
		f:         reflect.ValueOf(checker),
		eventType: eventType,
	}
''','''	if _, dup := eventTXCheckers.LoadOrStore(t, &eventHandler{
		f:         reflect.ValueOf(checker),
		eventType: eventType,
	}); dup {
		panic(fmt.Sprintf("event tx checker of type(%s) repeated!", t))
	}
''',EV,'var eventTXCheckerRouter = map[EventType]*eventHandler{}','var eventTXCheckers sync.Map'),
]
# mysql bus
M+=[
('ok-bus-manualtx',B,'''	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
		if err := db.Create(pos).Error; err != nil {
			return err
		}''','''	return e.inTX(ctx, func(db *gorm.DB) error {
		if err := db.Create(pos).Error; err != nil {
			return err
		}''',B,'''func (e *EventBus) RegisterEventTXChecker(''','''func (e *EventBus) inTX(ctx context.Context, fn func(db *gorm.DB) error) error {
	return e.getDB(ctx).Transaction(fn)
}

func (e *EventBus) RegisterEventTXChecker('''),
('ok-bus-onecreate',B,'''		for _, serviceName := range serviceNames {
			spos := make([]*ServiceEventPO, len(events))
			for i, po := range pos {
				spos[i] = &ServiceEventPO{
					Service:        serviceName,
					EventID:        po.ID,
					Status:         ServiceEventStatusInit,
					EventCreatedAt: po.EventCreatedAt,
					// 初始化时给一个尽量早的可执行时间，表示创建后就可以执行了
					NextTime: po.EventCreatedAt,
				}
			}
			if err := db.Create(spos).Error; err != nil {
				return err
			}
		}
		return nil''','''		spos := make([]*ServiceEventPO, 0, len(pos)*len(serviceNames))
		for _, serviceName := range serviceNames {
			for _, po := range pos {
				spos = append(spos, newServiceEvent(serviceName, po))
			}
		}
		if len(spos) == 0 {
			return nil
		}
		return db.Create(spos).Error''',B,'''func (e *EventBus) RegisterEventTXChecker(''','''func newServiceEvent(service string, po *EventPO) *ServiceEventPO {
	s := &ServiceEventPO{Service: service, EventID: po.ID, Status: ServiceEventStatusInit}
	s.EventCreatedAt = po.EventCreatedAt
	s.NextTime = po.EventCreatedAt
	return s
}

func (e *EventBus) RegisterEventTXChecker('''),
('ok-bus-pluck',B,'''	services := make([]*ServicePO, 0)
	if err := e.db.Find(&services).Error; err != nil {
		return nil, err
	}
	serviceNames := make([]string, 0)
	for _, service := range services {
		serviceNames = append(serviceNames, service.Name)
	}
	return serviceNames, nil''','''	var serviceNames []string
	err := e.db.Model(&ServicePO{}).Pluck("name", &serviceNames).Error
	return serviceNames, err'''),
('ok-bus-commit-switch',B,'''	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
	if err != nil && err != gorm.ErrRecordNotFound {
		return err
	}
	if err == gorm.ErrRecordNotFound {
		err := e.Dispatch(ctx, tx.Events...)
		if err != nil {
			return err
		}
	}

	return e.getDB(ctx).Delete(tx).Error''','''	db := e.getDB(ctx)
	switch err := db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error; {
	case errors.Is(err, gorm.ErrRecordNotFound):
		if err := e.Dispatch(ctx, tx.Events...); err != nil {
			return err
		}
	case err != nil:
		return err
	}
	return db.Delete(tx).Error'''),
('ok-bus-commit-take',B,'''Where("trans_id = ?", tx.ID).First(&EventPO{}).Error''','''Where(&EventPO{TransID: tx.ID}).Take(&EventPO{}).Error'''),
('ok-bus-scan-onewhere',B,'''	if err := e.db.Where("service = ?", e.serviceName).
		Where("status = ?", ServiceEventStatusInit).
		Where("event_id >= ?", eventOffset).
		//Where("event_id < ?", eventBound).
		Where("next_time <= ?", time.Now()).
		Order("event_id").Limit(e.opt.LimitPerRun).Find(&serviceEventPOs).Error; err != nil {''','''	now := time.Now()
	query := e.db.Where("service = ? AND status = ?", e.serviceName, ServiceEventStatusInit)
	query = query.Where("event_id >= ? AND next_time <= ?", eventOffset, now)
	if err := query.Order("event_id asc").Limit(e.opt.LimitPerRun).Find(&serviceEventPOs).Error; err != nil {'''),
('ok-bus-scan-first',B,'''		Order("event_id").Take(earliestRunnableServiceEvent).Error; err != nil {
		if !errors.Is(err, gorm.ErrRecordNotFound) {
			return nil, err
		}
		return nil, nil
	}''','''		Order("event_id").Limit(1).Take(earliestRunnableServiceEvent).Error; errors.Is(err, gorm.ErrRecordNotFound) {
		return nil, nil
	} else if err != nil {
		return nil, err
	}'''),
('ok-bus-scope',B,'''	if err := e.db.Where("service = ?", e.serviceName).
		Where("status = ?", ServiceEventStatusInit).
		Where("event_id >= ?", scanStartEventID).
		Order''','''	if err := e.db.Scopes(e.pendingOf).
		Where("event_id >= ?", scanStartEventID).
		Order''',B,'''func (e *EventBus) doRetryStrategy(''','''func (e *EventBus) pendingOf(db *gorm.DB) *gorm.DB {
	return db.Where("service = ?", e.serviceName).Where("status = ?", ServiceEventStatusInit)
}

func (e *EventBus) doRetryStrategy('''),
('ok-bus-pending-helper',B,'''	if err := e.db.Where("service = ?", e.serviceName).
		Where("status = ?", ServiceEventStatusInit).
		Where("event_id >= ?", scanStartEventID).
		Order''','''	if err := e.pending(scanStartEventID).
		Order''',B,'''	if err := e.db.Where("service = ?", e.serviceName).
		Where("status = ?", ServiceEventStatusInit).
		Where("event_id >= ?", eventOffset).
		//Where("event_id < ?", eventBound).
''','''	if err := e.pending(eventOffset).
''',B,'''func (e *EventBus) doRetryStrategy(''','''func (e *EventBus) pending(from int64) *gorm.DB {
	return e.db.Where("service = ?", e.serviceName).Where("status = ?", ServiceEventStatusInit).Where("event_id >= ?", from)
}

func (e *EventBus) doRetryStrategy('''),
('ok-bus-pair',B,'''	eventByID := make(map[int64]*EventPO, len(eventPOs))
	for _, eventPO := range eventPOs {
		eventByID[eventPO.ID] = eventPO
	}
	events := make([]*EventTuple, 0)
	for _, serviceEvent := range serviceEventPOs {
		eventPO, ok := eventByID[serviceEvent.EventID]
		if !ok {
			continue
		}
		events = append(events, &EventTuple{
			ServiceEvent: serviceEvent,
			Event:        eventPO,
		})
	}
	return events, nil''','''	events := make([]*EventTuple, 0)
	for _, serviceEvent := range serviceEventPOs {
		for _, eventPO := range eventPOs {
			if eventPO.ID == serviceEvent.EventID {
				events = append(events, &EventTuple{
					ServiceEvent: serviceEvent,
					Event:        eventPO,
				})
				break
			}
		}
	}
	return events, nil'''),
('ok-bus-retry-early',B,'''	newInfo := e.retryStrategy.Next(info)
	if newInfo != nil {
		spo.RetryCount = newInfo.RetryCount
		spo.NextTime = newInfo.RetryTime
	} else {
		spo.Status = ServiceEventStatusFailed
	}

	return
''','''	next := e.retryStrategy.Next(info)
	if next == nil {
		spo.Status = ServiceEventStatusFailed
		return
	}
	spo.RetryCount, spo.NextTime = next.RetryCount, next.RetryTime
'''),
('ok-bus-nochan',B,'''	eventChan := make(chan *EventTuple, len(eventPOs))
	for _, e := range eventPOs {
		eventChan <- e
	}
	close(eventChan)
''','''	eventChan := make(chan *EventTuple)
	go func() {
		defer close(eventChan)
		for _, e := range eventPOs {
			eventChan <- e
		}
	}()
'''),
('ok-bus-worker-fn',B,'''		go func() {
			defer wg.Done()
			cb := func(ctx context.Context, po *EventPO, spo *ServiceEventPO) {
				// 某个event 的处理成败，不影响后续事件的处理
				// 对于保序事件，因为前序事件没有执行，后面同sender event也不用继续了。但毕竟后续还有非保序事件要处理，所以也不会因为ErrPrecedingEventNotReady 就终止事件消费流程
				if err := e.handleEvent(ctx, po, spo, scanStartEventID); err != nil && !errors.Is(err, ErrPrecedingEventNotReady) {
					e.logger.Error(err, "handle event failed", "event_id", spo.EventID)
				}
			}
			for po := range eventChan {
				cb(ctx, po.Event, po.ServiceEvent)
			}
		}()
	}
	wg.Wait()
	return
}
''','''		go func() {
			defer wg.Done()
			e.consume(ctx, eventChan, scanStartEventID)
		}()
	}
	wg.Wait()
}

func (e *EventBus) consume(ctx context.Context, events <-chan *EventTuple, scanStartEventID int64) {
	for {
		t, ok := <-events
		if !ok {
			return
		}
		err := e.handleEvent(ctx, t.Event, t.ServiceEvent, scanStartEventID)
		if err == nil || errors.Is(err, ErrPrecedingEventNotReady) {
			continue
		}
		e.logger.Error(err, "handle event failed", "event_id", t.ServiceEvent.EventID)
	}
}
'''),
('ok-bus-preceding-switch',B,'''	if eventPO.Event.SendType == dddfirework.SendTypeFIFO {
		if precedingServiceEvent.Status != ServiceEventStatusSuccess && precedingServiceEvent.Status != ServiceEventStatusExpired {
			// 前序event 未执行、失败、未过期，则不执行当前event
			e.logger.V(logger.LevelInfo).Info("preceding service_event is not success or expired, ignore", "current event_id", spo.EventID)
			return ErrPrecedingEventNotReady
		}
	} else if eventPO.Event.SendType == dddfirework.SendTypeLaxFIFO {
		// 当期的策略是，哪怕前序event 在重试中，也还是init，除非超过重试次数status=failed。若想忽略重试这一点，可以check下 precedingServiceEvent.retryCount
		if precedingServiceEvent.Status == ServiceEventStatusInit {
			e.logger.V(logger.LevelInfo).Info("find preceding service_event has not been run", "current event_id", spo.EventID)
			// 前序event 未执行，则不执行当前event
			return ErrPrecedingEventNotReady
		}
	}
''','''	if mustWait(eventPO.Event.SendType, precedingServiceEvent.Status) {
		e.logger.V(logger.LevelInfo).Info("preceding service_event is not ready, ignore", "current event_id", spo.EventID)
		return ErrPrecedingEventNotReady
	}
''',B,'''// handleEvent, 多实例''','''func mustWait(t dddfirework.SendType, st ServiceEventStatus) bool {
	switch st {
	case ServiceEventStatusSuccess, ServiceEventStatusExpired:
		return false
	case ServiceEventStatusInit:
		return t == dddfirework.SendTypeFIFO || t == dddfirework.SendTypeLaxFIFO
	}
	return t == dddfirework.SendTypeFIFO
}

// handleEvent, 多实例'''),
('ok-bus-handle-call',B,'''		cb, _ := e.getCallbacks()
		err = cb(ctx, po.Event)
		if err != nil {
			// 更新 retry_limit 以及 next_time，超出重试限制，则status置为失败。为了支持自定义RetryStrategy，所以通过NextTime 而不是RunAt来控制重试间隔
			e.doRetryStrategy(spo)
			spo.FailedMessage = fmt.Sprintf("%v", err)
		} else {
			spo.Status = ServiceEventStatusSuccess
		}
		return nil''','''		cb, _ := e.getCallbacks()
		if err = cb(ctx, po.Event); err == nil {
			spo.Status = ServiceEventStatusSuccess
			return nil
		}
		spo.FailedMessage = err.Error()
		e.doRetryStrategy(spo)
		return nil'''),
('ok-bus-handle-lockfn',B,'''		currentServiceEvent := &ServiceEventPO{}
		if err := tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).First(currentServiceEvent, spo.ID).Error; err != nil {
			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
			return err
		}
		// 扫描后 service_event 可能已被其他实例更新，以加锁后读到的为准
		*spo = *currentServiceEvent
''','''		locked, err := lockServiceEvent(tx, spo.ID)
		if err != nil {
			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
			return err
		}
		*spo = *locked
''',B,'''func (e *EventBus) handleEvents() error {''','''func lockServiceEvent(tx *gorm.DB, id int64) (*ServiceEventPO, error) {
	row := &ServiceEventPO{}
	err := tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where("id = ?", id).Take(row).Error
	if err != nil {
		return nil, err
	}
	return row, nil
}

func (e *EventBus) handleEvents() error {'''),
('ok-bus-checktx-switch',B,'''	if st == dddfirework.TXCommit {
		if err := e.Commit(ctx); err != nil {
			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
		}
	} else if st == dddfirework.TXRollBack {
		if err := e.Rollback(ctx); err != nil {
			e.logger.Error(err, "[eventbus] rollback failed after tx check timeout")
		}
	}
''','''	var err error
	switch st {
	case dddfirework.TXCommit:
		err = e.Commit(ctx)
	case dddfirework.TXRollBack:
		err = e.Rollback(ctx)
	}
	if err != nil {
		e.logger.Error(err, "[eventbus] ending the message failed after tx check timeout", "status", st)
	}
'''),
('ok-bus-tx-wheres',B,'''.Where(
			"service = ? and due_time < ?", e.serviceName, time.Now(),
		).Find(&trans).Error; err != nil {''','''.Where("service = ?", e.serviceName).Where("due_time < ?", time.Now()).Find(&trans).Error; err != nil {'''),
('ok-bus-clean-split',B,'''		var eventIDCounts []EventIDCount
		if err := e.db.Model(&ServiceEventPO{}).Select("event_id, count(id) as count").
			Where("event_id in ?", eventIDs).
			Group("event_id").Find(&eventIDCounts).Error; err != nil {
			return err
		}
		// 能查到说明 event 还在被其它service_event引用
		reservedEventIDs := map[int64]bool{}
		for _, eventIDCount := range eventIDCounts {
			reservedEventIDs[eventIDCount.EventID] = true
		}
''','''		var rest []*ServiceEventPO
		if err := e.db.Where("event_id in ?", eventIDs).Find(&rest).Error; err != nil {
			return err
		}
		reservedEventIDs := make(map[int64]bool, len(rest))
		for _, r := range rest {
			reservedEventIDs[r.EventID] = true
		}
'''),
('ok-bus-clean-method',B,'''	batch := 10
	eventIDs := make([]int64, 0)
	for rows.Next() {
		serviceEvent := &ServiceEventPO{}
		err = e.db.ScanRows(rows, serviceEvent)
		if err != nil {
			return err
		}
		eventIDs = append(eventIDs, serviceEvent.EventID)
		if len(eventIDs) >= batch {
			if err = deleteServiceEvents(eventIDs); err != nil {
				return err
			}
			// 清空eventIDs
			eventIDs = eventIDs[:0]
		}
	}
''','''	const batch = 10
	eventIDs := make([]int64, 0, batch)
	for rows.Next() {
		var serviceEvent ServiceEventPO
		if err := e.db.ScanRows(rows, &serviceEvent); err != nil {
			return err
		}
		eventIDs = append(eventIDs, serviceEvent.EventID)
		if len(eventIDs) < batch {
			continue
		}
		if err := deleteServiceEvents(eventIDs); err != nil {
			return err
		}
		eventIDs = nil
	}
'''),
('ok-bus-start-tick',B,'''		ticker := time.NewTicker(e.opt.RunInterval)
		for range ticker.C {
			if err := e.handleTransactions(); err != nil {
				e.logger.Error(err, "handle transaction failed")
			}

			if cb, _ := e.getCallbacks(); cb != nil {
				if err := e.handleEvents(); err != nil {
					if errors.Is(err, ErrServiceNotCreate) {
						_ = e.initService()
					}
					e.logger.Error(err, "handler events err")
				}
			}
		}
	}
''','''		ticker := time.NewTicker(e.opt.RunInterval)
		defer ticker.Stop()
		for {
			<-ticker.C
			e.turn()
		}
	}
''',B,'''func (e *EventBus) Start(ctx context.Context) {''','''func (e *EventBus) turn() {
	if err := e.handleTransactions(); err != nil {
		e.logger.Error(err, "handle transaction failed")
	}

	if cb, _ := e.getCallbacks(); cb == nil {
		return
	}
	err := e.handleEvents()
	if err == nil {
		return
	}
	if errors.Is(err, ErrServiceNotCreate) {
		_ = e.initService()
	}
	e.logger.Error(err, "handler events err")
}

func (e *EventBus) Start(ctx context.Context) {'''),
('ok-bus-start-flag',B,'''	once      sync.Once
}''','''	startMu   sync.Mutex
	started   bool
}''',B,'''	e.once.Do(func() {
''','''	e.startMu.Lock()
	defer e.startMu.Unlock()
	if e.started {
		return
	}
	e.started = true
	func() {
''',B,'''		e.cleanCron.Start()
		go run()
	})
}''','''		e.cleanCron.Start()
		go run()
	}()
}'''),
('ok-bus-once-cas',B,'''	once      sync.Once
}''','''	started   int32
}''',B,'''	e.once.Do(func() {
''','''	if !atomic.CompareAndSwapInt32(&e.started, 0, 1) {
		return
	}
	func() {
''',B,'''		e.cleanCron.Start()
		go run()
	})
}''','''		e.cleanCron.Start()
		go run()
	}()
}''',B,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('ok-bus-mutex',B,'	cbMu      sync.RWMutex','	cbMu      sync.Mutex',B,'''	e.cbMu.RLock()
	defer e.cbMu.RUnlock()
	return e.cb, e.txChecker''','''	e.cbMu.Lock()
	cb, checker := e.cb, e.txChecker
	e.cbMu.Unlock()
	return cb, checker'''),
('ok-bus-atomic',B,'''	cb        dddfirework.DomainEventHandler
	cbMu ''','''	cb        atomic.Value
	cbMu ''',B,'''	return e.cb, e.txChecker''','''	cb, _ := e.cb.Load().(dddfirework.DomainEventHandler)
	return cb, e.txChecker''',B,'''	e.cbMu.Lock()
	defer e.cbMu.Unlock()
	e.cb = cb''','''	e.cb.Store(cb)''',B,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),
]
# executor
M+=[
('ok-x-switch',X,'''	f, ok := opMap[action.Op]
	if !ok {
		return fmt.Errorf("unsupport op(%d) for mysql executor", action.Op)
	}
	return f(db, action)''','''	if f, ok := opMap[action.Op]; ok {
		return f(db, action)
	}
	return fmt.Errorf("unsupport op(%d) for mysql executor", action.Op)'''),
('ok-x-txof',X,'''	val := ctx.Value(e.txKey)
	if val != nil {
		db = val.(*gorm.DB)
	}
''','''	if tx, ok := e.txOf(ctx); ok {
		db = tx
	}
''',X,'''	val := ctx.Value(e.txKey)
	if val == nil {
		return ErrNoTransaction
	}

	tx := val.(*gorm.DB)
	return tx.Commit().Error''','''	tx, ok := e.txOf(ctx)
	if !ok {
		return ErrNoTransaction
	}
	return tx.Commit().Error''',X,'''func (e *Executor) Begin(''','''func (e *Executor) txOf(ctx context.Context) (*gorm.DB, bool) {
	tx, ok := ctx.Value(e.txKey).(*gorm.DB)
	return tx, ok
}

func (e *Executor) Begin('''),
('ok-x-insert',X,'''		po := a.Models[0]
		poType := reflect.ValueOf(po).Type()
		pos := reflect.MakeSlice(reflect.SliceOf(poType), 0, 0)
		for _, a := range a.Models {
			pos = reflect.Append(pos, reflect.ValueOf(a))
		}
		return db.Create(pos.Interface()).Error''','''		n := len(a.Models)
		pos := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(a.Models[0])), 0, n)
		for i := 0; i < n; i++ {
			pos = reflect.Append(pos, reflect.ValueOf(a.Models[i]))
		}
		res := db.Create(pos.Interface())
		return res.Error'''),
('ok-x-update',X,'''			if len(a.PrevModels) > i {
				fields := DiffModel(m, a.PrevModels[i])
				if len(fields) == 0 {
					continue
				}
				if err := db.Select(fields).Updates(m).Error; err != nil {
					return err
				}
			} else {
				if err := db.Save(m.(IModel)).Error; err != nil {
					return err
				}
			}
		}
		return nil''','''			if i >= len(a.PrevModels) {
				if err := db.Save(m).Error; err != nil {
					return err
				}
				continue
			}
			if err := updateFields(db, m, a.PrevModels[i]); err != nil {
				return err
			}
		}
		return nil''',X,'''// 确保外面拿不到内部的 key''','''func updateFields(db *gorm.DB, m, prev ddd.IModel) error {
	fields := DiffModel(m, prev)
	if len(fields) == 0 {
		return nil
	}
	return db.Model(m).Select(fields).Updates(m).Error
}

// 确保外面拿不到内部的 key'''),
('ok-x-delete',X,'''			if len(a.Models) == 1 {
				return db.Where(pk+" = ?", a.Models[0].GetID()).Delete(newPO).Error
			}
			ids := make([]string, 0)
			for _, m := range a.Models {
				ids = append(ids, m.GetID())
			}
			return db.Where(pk+" in ?", ids).Delete(newPO).Error''','''			ids := make([]string, len(a.Models))
			for i, m := range a.Models {
				ids[i] = m.GetID()
			}
			return db.Where(fmt.Sprintf("%s in ?", pk), ids).Delete(newPO).Error'''),
('ok-x-query',X,'''		res := db.Where(a.Query).Find(a.QueryResult)
		return res.Error''','''		return db.Where(a.Query).Find(a.QueryResult).Error'''),
]
# locks
M+=[
('ok-l-rows',L,'''	if res.RowsAffected == 0 {
		// resource updated by others
		return nil, dddfirework.ErrEntityLocked
	}
	lock.LockerID = lockerID
	return &lock, nil''','''	if res.RowsAffected < 1 {
		return nil, dddfirework.ErrEntityLocked
	}
	return &ResourceLock{Resource: lock.Resource, LockerID: lockerID}, nil''',L,'''	if res.RowsAffected <= 0 { // should''','''	if res.RowsAffected == 0 { // should'''),
('ok-l-rows2',L,'''	if res.RowsAffected == 0 {
		// resource''','''	if !(res.RowsAffected > 0) {
		// resource''',L,'''	if res.RowsAffected <= 0 { // should''','''	if res.RowsAffected < 1 { // should''',L,'''	if res.RowsAffected == 0 {
		return fmt''','''	if res.RowsAffected != 1 {
		return fmt'''),
('ok-l-create',L,'''		l := &ResourceLock{Resource: key, LockerID: lockerID}
		err = r.db.WithContext(ctx).Create(l).Error
		if err != nil {
			if errors.Is(err, gorm.ErrDuplicatedKey) {
				return nil, dddfirework.ErrEntityLocked
			}
			return nil, fmt.Errorf("failed to create resource %s lock, err: %w", key, err)
		}
		return l, nil
	}''','''		return r.create(ctx, key, lockerID)
	}''',L,'''func (r *DBLock) UnLock(''','''func (r *DBLock) create(ctx context.Context, key, id string) (interface{}, error) {
	l := &ResourceLock{Resource: key, LockerID: id}
	switch err := r.db.WithContext(ctx).Create(l).Error; {
	case err == nil:
		return l, nil
	case errors.Is(err, gorm.ErrDuplicatedKey):
		return nil, dddfirework.ErrEntityLocked
	default:
		return nil, fmt.Errorf("failed to create resource %s lock, err: %w", key, err)
	}
}

func (r *DBLock) UnLock('''),
('ok-l-expiry',L,'''	if time.Since(lock.UpdatedAt) < r.ttl {''','''	if lock.UpdatedAt.Add(r.ttl).After(time.Now()) {'''),
('ok-l-expiry2',L,'''	if time.Since(lock.UpdatedAt) < r.ttl {''','''	if age := time.Now().Sub(lock.UpdatedAt); age < r.ttl {'''),
('ok-l-where',L,'''Where("locker_id = ? and resource = ?", l.LockerID, l.Resource).Delete''','''Where("resource = ?", l.Resource).Where("locker_id = ?", l.LockerID).Delete'''),
('ok-l-updatecols',L,'''		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
''','''		UpdateColumns(map[string]interface{}{"updated_at": time.Now(), "locker_id": lockerID})
'''),
('ok-l-loop',L,'''	err = retry.Do(
		func() error {
			keyLock, err = r.lock(ctx, key)
			return err
		},
		retry.RetryIf(func(err error) bool { // 只针对 dddfirework.ErrEntityLocked 重试
			return err == dddfirework.ErrEntityLocked
		}),
		retry.DelayType(retry.FixedDelay),
		retry.Delay(100*time.Millisecond), // 重试间隔
		retry.Attempts(5),                 // 重试次数
		retry.LastErrorOnly(true),
	)
	return
''','''	for i := 0; i < 5; i++ {
		if i > 0 {
			time.Sleep(100 * time.Millisecond)
		}
		keyLock, err = r.lock(ctx, key)
		if err != dddfirework.ErrEntityLocked {
			break
		}
	}
	return
''',L,'	"github.com/avast/retry-go"\n',''),
('ok-l-renew-method',L,'''	go func() {
		for {
			select {
			case <-subCtx.Done():
				return
			case <-ticker.C:
				if err := r.update(ctx, locker); err != nil {
					// 续期失败，会通知业务函数停止执行
					cancel()
					r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
					return
				}
			}
		}
	}()

	fn(subCtx)
	return nil
}
''','''	go r.renew(ctx, subCtx.Done(), ticker.C, locker, func(err error) {
		r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
		cancel()
	})

	fn(subCtx)
	return nil
}

func (r *DBLock) renew(ctx context.Context, done <-chan struct{}, tick <-chan time.Time, locker interface{}, failed func(error)) {
	for {
		select {
		case <-done:
			return
		case <-tick:
		}
		if err := r.update(ctx, locker); err != nil {
			failed(err)
			return
		}
	}
}
'''),
('ok-l-renew-wait',L,'''	go func() {
		for {
			select {
			case <-subCtx.Done():''','''	stopped := make(chan struct{})
	defer func() {
		cancel()
		<-stopped
	}()
	go func() {
		defer close(stopped)
		for {
			select {
			case <-subCtx.Done():'''),
('ok-redis',R,'''	if keyLock, err = r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
		// 默认固定间隔重试，最大重试30次
		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
	); err == redislock.ErrNotObtained {
		return nil, dddfirework.ErrEntityLocked
	}
	return
''','''	opt := &redislock.Options{RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)}
	l, err := r.cli.Obtain(ctx, key, r.ttl, opt)
	switch {
	case errors.Is(err, redislock.ErrNotObtained):
		return nil, dddfirework.ErrEntityLocked
	case err != nil:
		return nil, err
	}
	return l, nil
''',R,'	"context"\n','	"context"\n	"errors"\n'),
]
# timer, mem
M+=[
('ok-t-start',T,'''			ticker := time.NewTicker(t.opt.RunInterval)
			for range ticker.C {
				if err := t.handleJobs(context.Background()); err != nil {
					t.logger.Error(err, "handle job failed")
				}
			}
		}
		go run()''','''			for {
				time.Sleep(t.opt.RunInterval)
				if err := t.handleJobs(context.Background()); err != nil {
					t.logger.Error(err, "handle job failed")
				}
			}
		}
		go run()'''),
('ok-t-job-method',T,'''		if err := t.db.Transaction(func(tx *gorm.DB) error {
			// lock job
			if err := tx.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}).Where(
				"service = ? and next_time <= ? and status = ? and id = ?", t.service, time.Now(), TimerToRun, job.ID,
			).First(&job).Error; err != nil {
				t.logger.V(logger.LevelDebug).Info("lock timer job failed", "jobID", job.ID, "err", err)
				// continue
				return nil
			}

			if err := t.call(ctx, job); err != nil {
				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
			}
			if err := job.Next(); err != nil {
				job.Close(err)
			}

			// 保存job，避免重复执行
			if err := tx.Save(job).Error; err != nil {
				return err
			}

			return nil
		}); err != nil {
			// 只可能在保存Job和提交事务时发生，continue
			t.logger.Error(err, "save timer job failed", "jobID", job.ID)
		}
	}

	return nil
}
''','''		if err := t.handleJob(ctx, job.ID); err != nil {
			// 只可能在保存Job和提交事务时发生，continue
			t.logger.Error(err, "save timer job failed", "jobID", job.ID)
		}
	}

	return nil
}

func (t *DBTimer) due(db *gorm.DB) *gorm.DB {
	return db.Where("service = ?", t.service).Where("status = ?", TimerToRun).Where("next_time <= ?", time.Now())
}

func (t *DBTimer) handleJob(ctx context.Context, id int64) error {
	return t.db.Transaction(func(tx *gorm.DB) error {
		job := &TimerJob{}
		locking := clause.Locking{Strength: "UPDATE", Options: "NOWAIT"}
		if err := t.due(tx.Clauses(locking)).Where("id = ?", id).Take(job).Error; err != nil {
			t.logger.V(logger.LevelDebug).Info("lock timer job failed", "jobID", id, "err", err)
			return nil
		}
		if err := t.call(ctx, job); err != nil {
			t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
		}
		if err := job.Next(); err != nil {
			job.Close(err)
		}
		return tx.Save(job).Error
	})
}
'''),
('ok-t-next',TM,'''	if t.Cron != "" {
		return t.Reset()
	} else {
		t.Close(nil)
		return nil
	}
''','''	if t.Cron == "" {
		t.Close(nil)
		return nil
	}
	return t.Reset()
'''),
('ok-t-run',T,'''	return t.db.Where(map[string]interface{}{"service": t.service, "key": job.Key}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
''','''	exist := &TimerJob{}
	res := t.db.Where("service = ?", t.service).Where("`key` = ?", job.Key).Attrs(job).FirstOrCreate(exist)
	return res.Error
'''),
('ok-t-cancel',T,'''t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error''','''t.db.Where("service = ? AND `key` = ?", t.service, key).Delete(&TimerJob{}).Error'''),
('ok-m-select',MM,'''		for {
			select {
			case evt := <-e.ch:
				if cb := e.getCallback(); cb != nil {
					_ = cb(ctx, evt)
				}
			case <-ctx.Done():
				return
			}
		}
	}
''','''		done := ctx.Done()
		for {
			var evt *dddfirework.DomainEvent
			select {
			case <-done:
				return
			case evt = <-e.ch:
			}
			e.handle(ctx, evt)
		}
	}
''',MM,'''func (e *MemoryEventBus) Start(''','''func (e *MemoryEventBus) handle(ctx context.Context, evt *dddfirework.DomainEvent) {
	cb := e.getCallback()
	if cb == nil {
		return
	}
	_ = cb(ctx, evt)
}

func (e *MemoryEventBus) Start('''),
('ok-m-once',MM,'''	e.once.Do(func() {
		go run()
	})''','''	e.once.Do(func() { go run() })'''),
]
