# library helpers: sync.Map, sync.Pool, atomics, slices, maps, builders
e,s,d='engine.go','snapshot.go','entity.go'
mem='eventbus/mem/eventbus.go'; tm='d_timer/sql/timer.go'; bus='eventbus/mysql/eventbus.go'
M=[
('ok-sortedkeys',s,'''	keys := []string{}
	for key := range childrenList {
		keys = append(keys, key)
	}
''','''	keys := slices.Collect(maps.Keys(childrenList))
''',s,'	sort.Strings(keys)\n','	slices.Sort(keys)\n',s,'	"sort"\n','	"sort"\n	"maps"\n	"slices"\n'),
('ok-eventvalues',e,'''	events := make([]*DomainEvent, 0)
	for _, evt := range eventMap {
		events = append(events, evt)
	}
''','''	events := slices.AppendSeq(make([]*DomainEvent, 0, len(eventMap)), maps.Values(eventMap))
''',e,'	"sort"\n','	"maps"\n	"slices"\n	"sort"\n'),
('ok-sortfunc',e,'''	sort.SliceStable(events, func(i, j int) bool {
		return events[i].CreatedAt.Before(events[j].CreatedAt) ||
			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)
	})''','''	slices.SortStableFunc(events, func(a, b *DomainEvent) int {
		if c := a.CreatedAt.Compare(b.CreatedAt); c != 0 {
			return c
		}
		return cmp.Compare(a.ID, b.ID)
	})''',e,'	"sort"\n','	"cmp"\n	"slices"\n	"sort"\n'),
('ok-sorter',e,'''	sort.SliceStable(events, func(i, j int) bool {
		return events[i].CreatedAt.Before(events[j].CreatedAt) ||
			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)
	})
	return events
}
''','''	sort.Sort(eventsByTime(events))
	return events
}

type eventsByTime []*DomainEvent

func (s eventsByTime) Len() int      { return len(s) }
func (s eventsByTime) Swap(i, j int) { s[i], s[j] = s[j], s[i] }
func (s eventsByTime) Less(i, j int) bool {
	if s[i].CreatedAt.Equal(s[j].CreatedAt) {
		return s[i].ID < s[j].ID
	}
	return s[i].CreatedAt.Before(s[j].CreatedAt)
}
'''),
('sorter-noid',e,'''	sort.SliceStable(events, func(i, j int) bool {
		return events[i].CreatedAt.Before(events[j].CreatedAt) ||
			(events[i].CreatedAt.Equal(events[j].CreatedAt) && events[i].ID < events[j].ID)
	})
	return events
}
''','''	sort.Sort(eventsByTime(events))
	return events
}

type eventsByTime []*DomainEvent

func (s eventsByTime) Len() int           { return len(s) }
func (s eventsByTime) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
func (s eventsByTime) Less(i, j int) bool { return s[i].ID < s[j].ID }
'''),
('ok-atomicstart',mem,'''	e.once.Do(func() {
		go run()
	})''','''	if e.started.CompareAndSwap(false, true) {
		go run()
	}''',mem,'	once sync.Once\n','	started atomic.Bool\n',mem,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('atomicstart-late',mem,'''	e.once.Do(func() {
		go run()
	})''','''	if !e.started.Load() {
		go run()
	}''',mem,'	once sync.Once\n','	started atomic.Bool\n',mem,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('ok-atomicint',tm,'	once    sync.Once\n','	started int32\n',tm,'		once:    sync.Once{},\n','',tm,'	t.once.Do(func() {\n','	if atomic.CompareAndSwapInt32(&t.started, 0, 1) {\n',tm,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('ok-atomiccb',mem,'''	cb   dddfirework.DomainEventHandler
	cbMu sync.RWMutex // 保护 cb，每次 Run 都会重新注册
''','''	cb   atomic.Value
''',mem,'''	e.cbMu.Lock()
	defer e.cbMu.Unlock()
	e.cb = cb
''','''	e.cb.Store(cb)
''',mem,'''	e.cbMu.RLock()
	defer e.cbMu.RUnlock()
	return e.cb
''','''	cb, _ := e.cb.Load().(dddfirework.DomainEventHandler)
	return cb
''',mem,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('ok-containsfunc',d,'''XX''','''XX'''),
('ok-builder',e,'fmt.Sprintf("ddd_engine_%s", id)','lockName(id)',e,'type doSave func','''func lockName(id string) string {
	var b strings.Builder
	b.WriteString("ddd_engine_")
	b.WriteString(id)
	return b.String()
}

type doSave func'''),
('builder-nokey',e,'fmt.Sprintf("ddd_engine_%s", id)','lockName(id)',e,'type doSave func','''func lockName(id string) string {
	var b strings.Builder
	b.WriteString("ddd_engine_")
	b.WriteString(id)
	b.Reset()
	b.WriteString("ddd_engine_")
	return b.String()
}

type doSave func'''),
('pool-events',e,'''	events := make([]*DomainEvent, 0)
	for _, evt := range eventMap {
		events = append(events, evt)
	}
''','''	events := eventPool.Get().([]*DomainEvent)
	defer eventPool.Put(events)
	for _, evt := range eventMap {
		events = append(events, evt)
	}
''',e,'type doSave func','''var eventPool = sync.Pool{New: func() any { return make([]*DomainEvent, 0, 16) }}

type doSave func''',e,'	"sort"\n','	"sort"\n	"sync"\n'),
('type-cache',e,'XX','XX'),
]
M=[m for m in M if m[2]!='XX']
