M = [
 ("id-const", "event.go", "ID:        xid.New().String(),", 'ID:        string(event.GetType()),', True),
 ("id-payload", "event.go", "ID:        xid.New().String(),", 'ID:        event.GetSender() + string(bs),', True),
 ("type", "event.go", "Type:      event.GetType(),", 'Type:      EventType(event.GetSender()),', True),
 ("sender", "event.go", "Sender:    event.GetSender(),", 'Sender:    "",', True),
 ("sendtype-normal", "event.go", "SendType:  opt.SendType,", 'SendType:  SendTypeNormal,', True),
 ("sendtype-default", "event.go", "	opt := &EventOption{\n		SendType: SendTypeNormal,\n	}", "	opt := &EventOption{}", True),
 ("opts-first", "event.go", "	for _, o := range opts {\n		o(opt)\n	}", "	for i := len(opts) - 1; i >= 0; i-- {\n		opts[i](opt)\n	}", True),
 ("opts-fresh", "event.go", "	for _, o := range opts {\n		o(opt)\n	}", "	for _, o := range opts {\n		opt = &EventOption{SendType: SendTypeNormal}\n		o(opt)\n	}", True),
 ("marshal-ignored", "event.go", '		panic(fmt.Sprintf("event marshal failed, err=%s", err))', '		bs = nil', True),
 ("payload-type", "event.go", "json.Marshal(event)", "json.Marshal(event.GetType())", True),
 ("created-zero", "event.go", "		CreatedAt: time.Now(),\n", "", True),
 ("created-cached", "event.go", "CreatedAt: time.Now(),", "CreatedAt: started,", True, [("event.go", "var ErrNoEventBusFound", "var started = time.Now()\n\nvar ErrNoEventBusFound")]),
 ("withsend-noop", "event.go", "		opt.SendType = t\n", "		if opt.SendType == \"\" {\n			opt.SendType = t\n		}\n", True),
 ("add-noopts", "domain.go", "NewDomainEvent(evt, opts...)", "NewDomainEvent(evt)", True),
 ("add-replace", "domain.go", "append(e.events, NewDomainEvent(evt, opts...))", "[]*DomainEvent{NewDomainEvent(evt, opts...)}", True),
 ("add-front", "domain.go", "append(e.events, NewDomainEvent(evt, opts...))", "append([]*DomainEvent{NewDomainEvent(evt, opts...)}, e.events...)", True),
 ("add-dedup", "domain.go", "	e.events = append(e.events, NewDomainEvent(evt, opts...))", "	d := NewDomainEvent(evt, opts...)\n	for _, x := range e.events {\n		if x.Type == d.Type {\n			return\n		}\n	}\n	e.events = append(e.events, d)", True),
 ("add-each", "domain.go", "	e.events = append(e.events, NewDomainEvent(evt, opts...))", "	for range opts {\n		e.events = append(e.events, NewDomainEvent(evt, opts...))\n	}", True),
 ("get-drain", "domain.go", "	return e.events\n", "	r := e.events\n	e.events = nil\n	return r\n", True),
 ("add-twice", "domain.go", "	e.events = append(e.events, NewDomainEvent(evt, opts...))", "	e.events = append(e.events, NewDomainEvent(evt, opts...), NewDomainEvent(evt, opts...))", True),
 ("timer-key", "timer.go", "Key: key, Cron: cron, Payload: data", "Key: key, Cron: key, Payload: data", True),
 ("timer-data", "timer.go", "Key: key, Cron: cron, Payload: data", "Key: key, Cron: cron", True),
 ("timer-ctx", "timer.go", "return onEvent(ctx, New", "return onEvent(context.Background(), New", True),
 ("timer-err", "timer.go", "	return onEvent(ctx, NewDomainEvent(&TimerEvent{Key: key, Cron: cron, Payload: data}))", "	_ = onEvent(ctx, NewDomainEvent(&TimerEvent{Key: key, Cron: cron, Payload: data}))\n	return nil", True),
 ("timer-type", "timer.go", "	return EventType(e.Key)", '	return EventType("timer." + e.Key)', True),
 ("timer-sender", "timer.go", '	return ""\n', '	return e.Key\n', True),
 ("timer-nojson", "timer.go", '	Payload []byte\n', '	Payload []byte `json:"-"`\n', True),
 ("run-timer-reg", "engine.go", "	timer := e.options.Timer\n	timer.RegisterTimerHandler(onTimer)\n	e.locker", "	timer := e.options.Timer\n	e.locker", True),
 ("new-timer-reg", "engine.go", "	timer := options.Timer\n	timer.RegisterTimerHandler(onTimer)\n	return", "	timer := options.Timer\n	return", True),
 # behaviour kept
 ("eq-tag", "timer.go", '	Payload []byte\n', '	Payload []byte `json:"payload"`\n', False),
 ("eq-helper", "event.go", "		ID:        xid.New().String(),", "		ID:        newEventID(),", False, [("event.go", "type IEventBus interface", "func newEventID() string {\n	return xid.New().String()\n}\n\ntype IEventBus interface")]),
 ("eq-value", "timer.go", "NewDomainEvent(&TimerEvent{Key: key, Cron: cron, Payload: data})", "NewDomainEvent(tick(key, cron, data))", False, [("timer.go", "func onTimer", "func tick(key, cron string, data []byte) IEvent {\n	e := new(TimerEvent)\n	e.Key = key\n	e.Cron = cron\n	e.Payload = data\n	return e\n}\n\nfunc onTimer")]),
 ("eq-prefix", "event.go", "xid.New().String()", '"evt-" + xid.New().String()', False),
 ("eq-sprintf", "event.go", "xid.New().String()", 'fmt.Sprintf("%s-%s", event.GetType(), xid.New().String())', False),
 ("eq-assign", "event.go", "	return &DomainEvent{\n		ID:", "	now := time.Now()\n	d := &DomainEvent{\n		ID:", False, [("event.go", "		CreatedAt: time.Now(),\n	}\n", "	}\n	d.CreatedAt = now\n	return d\n")]),
 ("eq-idx", "event.go", "	for _, o := range opts {\n		o(opt)\n	}", "	for i := 0; i < len(opts); i++ {\n		opts[i](opt)\n	}", False),
]

def _c(t):
    n=t[0]
    if len(t)>4 and t[4] is False: n='ok-'+n
    r=(n,)+t[1:4]
    for e in (t[5] if len(t)>5 else []): r+=e
    return r
M=[_c(t) for t in M]
