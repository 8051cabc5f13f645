M = [
 ("undirty-noop","domain.go","func (e *BaseEntity) UnDirty() {\n\te.isDirty = false","func (e *BaseEntity) UnDirty() {\n\te.isDirty = len(e.events) > 0"),
 ("newbase-noid","domain.go","return BaseEntity{id: id}","return BaseEntity{}"),
 ("newbase-dirty","domain.go","return BaseEntity{id: id}","return BaseEntity{id: id, isDirty: true}"),
 ("setid-once","domain.go","\te.id = id\n","\tif e.id == \"\" {\n\t\te.id = id\n\t}\n"),
 ("setid-dirty","domain.go","\te.id = id\n","\te.id = id\n\te.isDirty = true\n"),
 ("setid-events","domain.go","\te.id = id\n","\te.id = id\n\te.events = nil\n"),
 ("dirty-toggle","domain.go","\te.isDirty = true\n","\te.isDirty = !e.isDirty\n"),
 ("addevent-dirty","domain.go","\te.events = append(e.events, NewDomainEvent(evt, opts...))","\te.events = append(e.events, NewDomainEvent(evt, opts...))\n\te.isDirty = true"),
 ("addevent-last","domain.go","\te.events = append(e.events, NewDomainEvent(evt, opts...))","\te.events = append(e.events[:0], NewDomainEvent(evt, opts...))"),
 ("undirty-events","domain.go","\te.isDirty = false\n","\te.isDirty = false\n\te.events = nil\n"),
 ("kids-empty","domain.go","IEntity {\n\treturn nil","IEntity {\n\treturn map[string][]IEntity{}"),
 ("isdirty-events","domain.go","\treturn e.isDirty\n","\treturn e.isDirty || len(e.events) > 0\n"),
 ("conv-swapped","executor/mysql/executor.go","entity2Model: f1,","entity2model: func(a, b ddd.IEntity, op ddd.OpType) (IModel, error) { return f1(b, a, op) },".replace("entity2model","entity2Model")),
 ("conv-keepfirst","executor/mysql/executor.go","func RegisterConverter(entity ddd.IEntity, converter IConverter) {\n","func RegisterConverter(entity ddd.IEntity, converter IConverter) {\n\tif _, ok := entity2ModelRegistry[realType(entity)]; ok {\n\t\treturn\n\t}\n"),
 ("conv-nocheck","executor/mysql/executor.go","\t\tpo, ok := model.(IModel)\n\t\tif !ok {\n\t\t\treturn fmt.Errorf(\"model must implement IModel\")\n\t\t}","\t\tpo, _ := model.(IModel)\n\t\t_ = fmt.Errorf"),
 ("conv-skipnil","executor/mysql/executor.go","\t\tif !ok {\n\t\t\treturn fmt.Errorf(\"model must implement IModel\")","\t\tif !ok {\n\t\t\t_ = fmt.Errorf\n\t\t\treturn nil"),
 ("conv-unreg-nil","executor/mysql/executor.go","; !ok {\n\t\treturn nil, ddd.ErrEntityNotRegister","; !ok {\n\t\treturn nil, nil"),
 ("conv-errlost","executor/mysql/executor.go","\t\treturn converter.model2Entity(po, entity)","\t\t_ = converter.model2Entity(po, entity)\n\t\treturn nil"),
 ("conv-parent","executor/mysql/executor.go","\t\treturn converter.entity2Model(entity, parent, op)","\t\treturn converter.entity2Model(entity, entity, op)"),
 ("nobus-nil","event.go","func (d *noEventBus) Dispatch(ctx context.Context, evt ...*DomainEvent) error {\n\treturn ErrNoEventBusFound","func (d *noEventBus) Dispatch(ctx context.Context, evt ...*DomainEvent) error {\n\treturn nil"),
 ("notimer-nil","timer.go","func (d *noTimer) RunCron(key, cron string, data []byte) error {\n\treturn ErrNoEventTimerFound","func (d *noTimer) RunCron(key, cron string, data []byte) error {\n\treturn nil"),
 ("idgen-const","engine.go","\treturn guid.String(), nil","\treturn guid.String()[:0], nil"),
 ("ok-undirty","domain.go","\te.isDirty = false\n","\tif e.IsDirty() {\n\t\te.isDirty = false\n\t}\n"),
 ("ok-addevent","domain.go","\te.events = append(e.events, NewDomainEvent(evt, opts...))","\tes := make([]*DomainEvent, 0, len(e.events)+1)\n\tes = append(es, e.events...)\n\te.events = append(es, NewDomainEvent(evt, opts...))"),
 ("ok-newbase","domain.go","return BaseEntity{id: id}","var b BaseEntity\n\tb.SetID(id)\n\treturn b"),
 ("ok-conv","executor/mysql/executor.go","\tif converter, ok := entity2ModelRegistry[realType(entity)]; !ok {\n\t\treturn nil, ddd.ErrEntityNotRegister\n\t} else {\n\t\treturn converter.entity2Model(entity, parent, op)\n\t}","\tc, found := entity2ModelRegistry[realType(entity)]\n\tif found {\n\t\tf := c.entity2Model\n\t\treturn f(entity, parent, op)\n\t}\n\treturn nil, fmt.Errorf(\"%T: %w\", entity, ddd.ErrEntityNotRegister)"),
]
