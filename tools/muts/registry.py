M=[
('cache-decoded','event.go','''	for _, h := range handlers {
		var bizEvt reflect.Value
		if h.eventType''','''	for _, h := range handlers {
		bizEvt := h.last
		if bizEvt.IsValid() {
		} else if h.eventType''','event.go','''				return err
			}
		}

		outs''','''				return err
			}
			h.last = bizEvt
		}

		outs''','event.go','type eventHandler struct {\n','type eventHandler struct {\n	last reflect.Value\n'),
('reuse-arg','event.go','''			bizEvt = reflect.New(h.eventType)
			if''','''			if !h.arg.IsValid() {
				h.arg = reflect.New(h.eventType)
			}
			bizEvt = h.arg
			if''','event.go','type eventHandler struct {\n','type eventHandler struct {\n	arg reflect.Value\n'),
('ck-reuse-arg','event.go','''		bizEvt = reflect.New(checker.eventType)
		if''','''		if !checker.arg.IsValid() {
			checker.arg = reflect.New(checker.eventType)
		}
		bizEvt = checker.arg
		if''','event.go','type eventHandler struct {\n','type eventHandler struct {\n	arg reflect.Value\n'),
('once-handlers','event.go','''	handlers := eventRouter[evt.Type]
	eventBusMu.Unlock()
''','''	handlers := eventRouter[evt.Type]
	eventRouter[evt.Type] = handlers[:0]
	eventBusMu.Unlock()
'''),
('drop-failed','event.go','''		if !outs[0].IsNil() {
			return''','''		if !outs[0].IsNil() {
			h.eventType = domainEventType
			return'''),
('ok-keep','event.go','''	handlers := eventRouter[evt.Type]
	eventBusMu.Unlock()
''','''	handlers := make([]*eventHandler, len(eventRouter[evt.Type]))
	copy(handlers, eventRouter[evt.Type])
	eventBusMu.Unlock()
'''),
]
