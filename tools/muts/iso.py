e='engine.go'
def R(name,old,new,*more): return (name,e,old,new)+more
M=[
R('hooks-noclip','hooks[:len(hooks):len(hooks)]','hooks'),
R('hooks-engine-append','''func (e *Engine) Run(ctx context.Context, c interface{}, opts ...Option) *Result {
	return e.NewStage()''','''func (e *Engine) Run(ctx context.Context, c interface{}, opts ...Option) *Result {
	for _, o := range opts {
		o.ApplyToOptions(&e.options)
	}
	return e.NewStage()'''),
R('shared-result','		result:      &Result{},\n','		result:      e.result,\n','engine.go','	options     Options\n}\n\nfunc NewEngine','	options     Options\n	result      *Result\n}\n\nfunc NewEngine','engine.go','		options:     options,\n		logger:      options.Logger,','		options:     options,\n		result:      &Result{},\n		logger:      options.Logger,'),
R('shared-meta','		meta:        &EntityContainer{},\n','		meta:        e.meta,\n','engine.go','	options     Options\n}\n\nfunc NewEngine','	options     Options\n	meta        *EntityContainer\n}\n\nfunc NewEngine','engine.go','		options:     options,\n		logger:      options.Logger,','		options:     options,\n		meta:        &EntityContainer{},\n		logger:      options.Logger,'),
R('shared-stage','func (e *Engine) NewStage() *Stage {\n	return &Stage{','func (e *Engine) NewStage() *Stage {\n	if e.stage != nil {\n		return e.stage\n	}\n	e.stage = &Stage{','engine.go','		logger:      e.logger,\n	}\n}','		logger:      e.logger,\n	}\n	return e.stage\n}','engine.go','	options     Options\n}\n\nfunc NewEngine','	options     Options\n	stage       *Stage\n}\n\nfunc NewEngine'),
R('options-ptr','	options     Options\n}\n\nfunc NewEngine','	options     *Options\n}\n\nfunc NewEngine','engine.go','	options     Options\n\n	meta','	options     *Options\n\n	meta','engine.go','		options:     options,\n		logger','		options:     &options,\n		logger','engine.go','opt.ApplyToOptions(&e.options)','opt.ApplyToOptions(e.options)'),
R('no-stage-locker','	e.locker = e.options.Locker\n	e.executor','	e.executor'),
R('no-stage-exec','	e.executor = e.options.Executor\n',''),
R('no-stage-log','	e.logger = e.options.Logger\n',''),
R('no-stage-idgen','	e.idGenerator = e.options.IDGenerator\n',''),
R('no-stage-bus','	e.eventBus = eventBus\n',''),
R('no-eng-idgen','		idGenerator: e.idGenerator,\n','		idGenerator: &defaultIDGenerator{},\n'),
R('ok-no-eng-log','		logger:      e.logger,\n',''),
R('ok-no-eng-locker','		locker:      e.locker,\n',''),
R('eng-locker-arg','		locker:      options.Locker,\n','		locker:      l,\n','engine.go','	e.locker = e.options.Locker\n',''),
R('eng-exec-arg','		executor:    options.Executor,\n','		executor:    e,\n'),
R('rec-true','opts.RecursiveDelete = bool(t)','opts.RecursiveDelete = true'),
R('rec-or','opts.RecursiveDelete = bool(t)','opts.RecursiveDelete = opts.RecursiveDelete || bool(t)'),
R('dry-or','opts.DryRun = bool(t)','opts.DryRun = opts.DryRun || bool(t)'),
R('tx-true','opts.WithTransaction = bool(t)','opts.WithTransaction = opts.WithTransaction && bool(t)'),
R('tx-const','const WithoutTransaction = TransactionOption(false)','const WithoutTransaction = TransactionOption(true)'),
R('tx-default','		WithTransaction: true,\n',''),
R('bus-only-first','	opts.EventBus = t.eventBus\n','	if _, ok := opts.EventBus.(*noEventBus); ok || opts.EventBus == nil {\n		opts.EventBus = t.eventBus\n	}\n'),
R('bus-also-timer','	opts.EventBus = t.eventBus\n','	opts.EventBus = t.eventBus\n	opts.EventPersist = nil\n'),
R('logger-noop','	opts.Logger = t.logger\n','	if opts.Logger.GetSink() == nil {\n		opts.Logger = t.logger\n	}\n'),
R('persist-clear','	opts.EventPersist = EventPersist(t)\n','	if opts.EventPersist == nil {\n		opts.EventPersist = EventPersist(t)\n	}\n'),
R('hook-replace','append(hooks[:len(hooks):len(hooks)], PostSaveFunc(t))','append(hooks[:0:0], PostSaveFunc(t))'),
R('hook-front','append(hooks[:len(hooks):len(hooks)], PostSaveFunc(t))','append([]PostSaveFunc{PostSaveFunc(t)}, hooks...)'),
R('idgen-noset','	opts.IDGenerator = t.idGen\n','	if opts.IDGenerator == nil {\n		opts.IDGenerator = t.idGen\n	}\n'),
R('timer-swap','	opts.Timer = t.timer\n','	if opts.Timer == nil {\n		opts.Timer = t.timer\n	}\n'),
R('lock-swap','	opts.Locker = t.lock\n','	if opts.Locker == nil {\n		opts.Locker = t.lock\n	}\n'),
R('exec-swap','	opts.Executor = t.executor\n','	if opts.Executor == nil {\n		opts.Executor = t.executor\n	}\n'),
R('opts-rev','	for _, opt := range opts {\n		opt.ApplyToOptions(&e.options)\n	}','	for i := range opts {\n		opts[len(opts)-1-i].ApplyToOptions(&e.options)\n	}'),
R('run-noopts','	return e.NewStage().WithOption(opts...).Run(ctx, c)','	return e.NewStage().WithOption(opts[:len(opts)/2]...).Run(ctx, c)'),
R('bus-unwired','	eventBus.RegisterEventHandler(onEvent)\n	if txEB, ok := eventBus.(ITransactionEventBus); ok {\n		txEB.RegisterEventTXChecker(onTXChecker)\n	}\n	e.eventBus','	e.eventBus'),
R('chk-unwired','	if txEB, ok := eventBus.(ITransactionEventBus); ok {\n		txEB.RegisterEventTXChecker(onTXChecker)\n	}\n	e.eventBus','	e.eventBus'),
R('actions-none','	e.result.Actions = append(e.result.Actions, actions...)\n',''),
R('actions-replace','append(e.result.Actions, actions...)','append([]*Action{}, actions...)'),
R('actions-before','	if e.options.DryRun {\n		return nil\n	}\n	for _, a','	e.result.Actions = append(e.result.Actions, actions...)\n	if e.options.DryRun {\n		return nil\n	}\n	for _, a','engine.go','	e.result.Actions = append(e.result.Actions, actions...)\n	return nil','	return nil'),
R('output-first','	e.result.Output = data\n','	if e.result.Output == nil {\n		e.result.Output = data\n	}\n'),
R('output-drop','	return e.result\n}\n\ntype doSave','	return &Result{Actions: e.result.Actions}\n}\n\ntype doSave'),
R('global-opts','func NewEngine(l ILock, e IExecutor, opts ...Option) *Engine {\n	options := Options{','var options Options\n\nfunc NewEngine(l ILock, e IExecutor, opts ...Option) *Engine {\n	options = Options{'),
R('global-active','func (e *Stage) Save(ctx context.Context) *Result {\n','var current *Stage\n\nfunc (e *Stage) Save(ctx context.Context) *Result {\n	current = e\n'),
R('evctx-engine','func (e *Stage) do(ctx context.Context) *Result {','var pending []*DomainEvent\n\nfunc (e *Stage) do(ctx context.Context) *Result {',e,'	events := e.collectEvents()\n	if','	pending = append(pending, e.collectEvents()...)\n	events := pending\n	if'),
# kept
R('ok-clone','	opts.PostSaveHooks = append(hooks[:len(hooks):len(hooks)], PostSaveFunc(t))','	next := make([]PostSaveFunc, 0, len(hooks)+1)\n	next = append(next, hooks...)\n	opts.PostSaveHooks = append(next, PostSaveFunc(t))'),
R('ok-copy','	opts.PostSaveHooks = append(hooks[:len(hooks):len(hooks)], PostSaveFunc(t))','	next := make([]PostSaveFunc, len(hooks), len(hooks)+1)\n	copy(next, hooks)\n	opts.PostSaveHooks = append(next, PostSaveFunc(t))'),
R('ok-wire-helper','	eventBus := e.options.EventBus\n	eventBus.RegisterEventHandler(onEvent)\n	if txEB, ok := eventBus.(ITransactionEventBus); ok {\n		txEB.RegisterEventTXChecker(onTXChecker)\n	}\n','	eventBus := e.options.EventBus\n	RegisterEventBus(eventBus)\n'),
R('ok-stage-var','	return &Stage{\n		locker:      e.locker,','	st := &Stage{\n		locker:      e.locker,',e,'		options:     e.options,\n		logger:      e.logger,\n	}\n','		logger:      e.logger,\n	}\n	st.options = e.options\n	return st\n'),
R('ok-mutex-cache','func (e *Engine) NewStage() *Stage {\n','var runsMu sync.Mutex\nvar runs int\n\nfunc (e *Engine) NewStage() *Stage {\n	runsMu.Lock()\n	runs++\n	runsMu.Unlock()\n',e,'	"strings"\n','	"strings"\n	"sync"\n'),
R('ok-actions-loop','	e.result.Actions = append(e.result.Actions, actions...)\n','	for _, a := range actions {\n		e.result.Actions = append(e.result.Actions, a)\n	}\n'),
]
