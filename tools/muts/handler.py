e='engine.go'
def R(name,old,new,*more): return (name,e,old,new)+more
CALL='''		outputs := constructFunc.Call([]reflect.Value{bizEvt})
'''
M=[
R('call-twice',CALL,CALL+'		outputs = constructFunc.Call([]reflect.Value{bizEvt})\n'),
R('run-twice','		if res := e.Run(ctx, outputs[0].Interface()); res.Error != nil {','		e.Run(ctx, outputs[0].Interface())\n		if res := e.Run(ctx, outputs[0].Interface()); res.Error != nil {'),
R('err-dropped','			return res.Error\n		}\n		return nil\n	})','		}\n		return nil\n	})'),
R('ctx-bg','e.Run(ctx, outputs[0]','e.Run(context.Background(), outputs[0]'),
R('break-err','if res := e.Run(ctx, outputs[0].Interface()); res.Error != nil {','if res := e.Run(ctx, outputs[0].Interface()); res.Error != nil || res.Break {'),
R('unmarshal-ignored','				e.logger.Error(err, "unmarshal event failed")\n				return err\n','				e.logger.Error(err, "unmarshal event failed")\n'),
R('unmarshal-nil','				e.logger.Error(err, "unmarshal event failed")\n				return err\n','				e.logger.Error(err, "unmarshal event failed")\n				return nil\n'),
R('shared-event','		var bizEvt reflect.Value\n		if','		if','engine.go','	RegisterEventHandler(eventType, func(ctx context.Context, evt *DomainEvent) error {\n','	var bizEvt = reflect.New(evtType)\n	RegisterEventHandler(eventType, func(ctx context.Context, evt *DomainEvent) error {\n','engine.go','			bizEvt = reflect.New(evtType)\n			if err','			if err'),
R('raw-notspecial','		if evtType == domainEventType {','		if false && evtType == domainEventType {'),
R('other-engine','	constructFunc := reflect.ValueOf(construct)\n','	constructFunc := reflect.ValueOf(construct)\n	if lastEngine == nil {\n		lastEngine = e\n	}\n	e = lastEngine\n','engine.go','var defaultLogger','var lastEngine *Engine\nvar defaultLogger'),
R('construct-cached',CALL,'		if outputs == nil {\n			outputs = constructFunc.Call([]reflect.Value{bizEvt})\n		}\n','engine.go','	constructFunc := reflect.ValueOf(construct)\n','	constructFunc := reflect.ValueOf(construct)\n	var outputs []reflect.Value\n'),
R('construct-early','	constructFunc := reflect.ValueOf(construct)\n','	constructFunc := reflect.ValueOf(construct)\n	constructFunc.Call([]reflect.Value{reflect.New(evtType)})\n'),
R('kind-check','	if handlerType.Kind() != reflect.Func {\n		panic("construct must type of reflect.Func")\n	}\n',''),
R('numin-check','handlerType.NumIn() != 1 || handlerType.NumOut() != 1','handlerType.NumIn() < 1 || handlerType.NumOut() < 1'),
R('numout-check','handlerType.NumIn() != 1 || handlerType.NumOut() != 1','handlerType.NumIn() != 1'),
R('ptr-check','	if evtType.Kind() != reflect.Ptr {\n		panic("event type must be pointer")\n	}\n','	if evtType.Kind() != reflect.Ptr {\n		return\n	}\n'),
R('cron-nodup1','	if hasEventHandler(key) {\n		panic("key has registered")\n	}\n\n	RegisterEventHandler(key','	RegisterEventHandler(key'),
R('cron-nodup2','	if hasEventHandler(key) {\n		panic("key has registered")\n	}\n\n	e.RegisterEventHandler(key','	e.RegisterEventHandler(key'),
R('cron-swap','f(evt.Key, evt.Cron)\n		return nil','f(evt.Cron, evt.Key)\n		return nil'),
R('cron-closure','f(evt.Key, evt.Cron)\n		return nil','f(string(key), cron)\n		return nil'),
R('cron2-swap','return f(evt.Key, evt.Cron)','return f(evt.Cron, evt.Key)'),
R('cron-late','''	RegisterEventHandler(key, func(ctx context.Context, evt *TimerEvent) error {
		f(evt.Key, evt.Cron)
		return nil
	})

	if err := e.timer.RunCron(string(key), cron, nil); err != nil {
		panic(err)
	}
''','''	if err := e.timer.RunCron(string(key), cron, nil); err != nil {
		panic(err)
	}
	RegisterEventHandler(key, func(ctx context.Context, evt *TimerEvent) error {
		f(evt.Key, evt.Cron)
		return nil
	})
'''),
R('cron-refused-ignored','''		f(evt.Key, evt.Cron)
		return nil
	})

	if err := e.timer.RunCron(string(key), cron, nil); err != nil {
		panic(err)
	}''','''		f(evt.Key, evt.Cron)
		return nil
	})

	if err := e.timer.RunCron(string(key), cron, nil); err != nil {
		e.logger.Error(err, "x")
	}'''),
R('cron-twice','''		return f(evt.Key, evt.Cron)
	})
''','''		return f(evt.Key, evt.Cron)
	})
	_ = e.timer.RunCron(string(key), cron, nil)
'''),
R('cron-calls-now','''		return f(evt.Key, evt.Cron)
	})
''','''		return f(evt.Key, evt.Cron)
	})
	f(string(key), cron)
'''),
R('cron-key','RunCron(string(key), cron, nil); err != nil {\n		panic(err)\n	}\n}\n\n// RegisterCronTaskOfCommand','RunCron(cron, string(key), nil); err != nil {\n		panic(err)\n	}\n}\n\n// RegisterCronTaskOfCommand'),
R('timer-handler-dropped','	timer.RegisterTimerHandler(onTimer)\n	return &Engine','	return &Engine'),
R('ok-reorder','	if handlerType.NumIn() != 1 || handlerType.NumOut() != 1 {\n		panic("construct num of arg or output must 1")\n	}','	if handlerType.NumOut() != 1 {\n		panic("one output")\n	}\n	if handlerType.NumIn() != 1 {\n		panic("one arg")\n	}'),
R('ok-res','''		if res := e.Run(ctx, outputs[0].Interface()); res.Error != nil {
			e.logger.Error(res.Error, "event handler exec failed")
			return res.Error
		}
		return nil
''','''		res := e.NewStage().Run(ctx, outputs[0].Interface())
		if res.Error == nil {
			return nil
		}
		return fmt.Errorf("event handler: %w", res.Error)
'''),
R('ok-helper','''			bizEvt = reflect.New(evtType)
			if err := json.Unmarshal(evt.Payload, bizEvt.Interface()); err != nil {
				e.logger.Error(err, "unmarshal event failed")
				return err
			}
''','''			var err error
			if bizEvt, err = decodeEvt(evtType, evt); err != nil {
				e.logger.Error(err, "unmarshal event failed")
				return err
			}
''','engine.go','// RegisterCronTask 注册定时任务','''func decodeEvt(t reflect.Type, evt *DomainEvent) (reflect.Value, error) {
	v := reflect.New(t)
	return v, json.Unmarshal(evt.Payload, v.Interface())
}

// RegisterCronTask 注册定时任务'''),
R('ok-cron-helper','''	if err := e.timer.RunCron(string(key), cron, nil); err != nil {
		panic(err)
	}
}

// RegisterCronTaskOfCommand''','''	e.mustCron(key, cron)
}

func (e *Engine) mustCron(key EventType, cron string) {
	err := e.timer.RunCron(string(key), cron, nil)
	if err == nil {
		return
	}
	panic(fmt.Errorf("cron %s: %w", key, err))
}

// RegisterCronTaskOfCommand'''),
('taskevent-topic','event.go','',''),
]
M=[m for m in M if m[2]]
