f='engine.go'
LOOP='''	for i := 0; i < posPointer.Elem().Len(); i++ {
		newEntity := reflect.New(eType)
		if err := e.executor.Model2Entity(posPointer.Elem().Index(i).Interface().(IModel), newEntity.Interface().(IEntity)); err != nil {
			return err
		}
		entitiesVal = reflect.Append(entitiesVal, newEntity)
	}
	resultVal.Elem().Set(entitiesVal)
	return nil
'''
SL='''	entity := reflect.New(eType)
	po, err := e.executor.Entity2Model(entity.Interface().(IEntity), parent, OpQuery)'''
M=[
('noid-query',f,'	if parent.GetID() == "" {\n		return fmt.Errorf("parent must has ID")\n	}\n\n	if err','	if err'),
('root-err-ignored',f,'	if err := e.buildEntity(ctx, parent, nil); err != nil {\n		return err\n	}','	if err := e.buildEntity(ctx, parent, nil); err != nil && !errors.Is(err, ErrEntityNotFound) {\n		return err\n	}'),
('root-parent-self',f,'e.buildEntity(ctx, parent, nil)','e.buildEntity(ctx, parent, parent)'),
('child-noparent',f,'e.buildEntity(ctx, itemDef.(IEntity), parent)','e.buildEntity(ctx, itemDef.(IEntity), nil)'),
('ent-noparent',f,'e.buildEntity(ctx, item.(IEntity), parent); err != nil &&','e.buildEntity(ctx, item.(IEntity), nil); err != nil &&'),
('slice-noparent',f,SL,SL.replace('parent,','nil,')),
('slice-first',f,'for i := 0; i < posPointer.Elem().Len(); i++ {','for i := 0; i < 1; i++ {'),
('slice-skip0',f,'for i := 0; i < posPointer.Elem().Len(); i++ {','for i := 1; i < posPointer.Elem().Len(); i++ {'),
('slice-share',f,'		newEntity := reflect.New(eType)\n','		newEntity := entity\n'),
('slice-rev',f,'posPointer.Elem().Index(i).Interface()','posPointer.Elem().Index(posPointer.Elem().Len()-1-i).Interface()'),
('slice-noset',f,'	resultVal.Elem().Set(entitiesVal)\n	return nil','	return nil'),
('slice-replace',f,'	entitiesVal := resultVal.Elem()\n','	entitiesVal := reflect.MakeSlice(resultVal.Elem().Type(), 0, 0)\n'),
('slice-converr',f,'''newEntity.Interface().(IEntity)); err != nil {
			return err
		}''','''newEntity.Interface().(IEntity)); err != nil {
			continue
		}'''),
('ptr-keep',f,'					itemVal.Elem().SetZero()\n',''),
('ptr-other',f,'itemVal.Elem().Set(newItem)\n			}\n			itemDef := itemVal.Elem().Interface()','itemVal.Elem().Set(newItem)\n			}\n			itemDef := reflect.New(itemType.Elem().Elem()).Interface()'),
('ptr-always-new',f,'if itemVal.Elem().IsNil() && itemVal.Elem().CanSet() {','if itemVal.Elem().CanSet() {'),
('ptr-notfound-err',f,'				if errors.Is(err, ErrEntityNotFound) {\n					itemVal.Elem().SetZero()\n				} else {\n					return err\n				}','				return err'),
('ptr-err-lost',f,'					itemVal.Elem().SetZero()\n				} else {\n					return err\n				}','					itemVal.Elem().SetZero()\n				}'),
('ent-notfound-err',f,'item.(IEntity), parent); err != nil && !errors.Is(err, ErrEntityNotFound) {','item.(IEntity), parent); err != nil {'),
('ent-err-lost',f,'item.(IEntity), parent); err != nil && !errors.Is(err, ErrEntityNotFound) {','item.(IEntity), parent); err != nil && errors.Is(err, ErrBreak) {'),
('wrong-ignored',f,'			return fmt.Errorf("children type must be IEntity")','			continue'),
('notptr-ignored',f,'			return fmt.Errorf("children must be pointer and not nil")','			continue'),
('nilcheck',f,'itemType == nil || itemType.Kind() != reflect.Ptr || itemVal.IsNil()','itemType == nil || itemType.Kind() != reflect.Ptr'),
('niltype',f,'itemType == nil || itemType.Kind()','itemType.Kind()'),
('elemptr',f,'eType.Kind() != reflect.Ptr || !eType.Implements(entityType)','!eType.Implements(entityType)'),
('row-last',f,'posPointer.Elem().Index(0).Interface()','posPointer.Elem().Index(posPointer.Elem().Len() - 1).Interface()'),
('norow-ok',f,'		return ErrEntityNotFound\n	}\n	queryPO','		return nil\n	}\n	queryPO'),
('norow-othererr',f,'		return ErrEntityNotFound\n	}\n	queryPO','		return fmt.Errorf("no row")\n	}\n	queryPO'),
('norow-wrap-v',f,'		return ErrEntityNotFound\n	}\n	queryPO','		return fmt.Errorf("load %s: %v", reflect.TypeOf(po), ErrEntityNotFound)\n	}\n	queryPO'),
('ok-norow-wrap',f,'		return ErrEntityNotFound\n	}\n	queryPO','		return fmt.Errorf("load %s: %w", reflect.TypeOf(po), ErrEntityNotFound)\n	}\n	queryPO'),
('query-bg',f,'	if err := e.executor.Exec(ctx, &Action{\n		Op:          OpQuery,\n		Query:       po,\n		QueryResult: posPointer.Interface(),\n	}); err != nil {\n		return err\n	}\n	if posPointer.Elem().Len() == 0 {\n		return ErrEntity','	if err := e.executor.Exec(context.Background(), &Action{\n		Op:          OpQuery,\n		Query:       po,\n		QueryResult: posPointer.Interface(),\n	}); err != nil {\n		return err\n	}\n	if posPointer.Elem().Len() == 0 {\n		return ErrEntity'),
('query-noptr',f,'	posPointer := reflect.New(reflect.SliceOf(reflect.TypeOf(po)))\n	if err','	posPointer := reflect.New(reflect.SliceOf(reflect.TypeOf((*IModel)(nil)).Elem()))\n	if err'),
('exec-err',f,'''		QueryResult: posPointer.Interface(),
	}); err != nil {
		return err
	}
	if posPointer.Elem().Len() == 0 {
		return nil''','''		QueryResult: posPointer.Interface(),
	}); err != nil && errors.Is(err, ErrBreak) {
		return err
	}
	if posPointer.Elem().Len() == 0 {
		return nil'''),
('get-noadd',f,'	return r.stage.meta.Add(root)\n','	return nil\n'),
('get-add-first',f,'''	if err := r.stage.updateSnapshot(root); err != nil {
		return err
	}
	return r.stage.meta.Add(root)
''','''	if err := r.stage.meta.Add(root); err != nil {
		return err
	}
	return r.stage.updateSnapshot(root)
'''),
('get-nosnap',f,'''	if err := r.stage.updateSnapshot(root); err != nil {
		return err
	}
	return r.stage.meta.Add(root)
''','''	return r.stage.meta.Add(root)
'''),
('get-snaperr',f,'''	if err := r.stage.updateSnapshot(root); err != nil {
		return err
	}
	return r.stage.meta.Add(root)
''','''	_ = r.stage.updateSnapshot(root)
	return r.stage.meta.Add(root)
'''),
('get-add-before-build',f,'''	if err := r.stage.BuildEntity(ctx, root, children...); err != nil {
		return err
	}

	if r.stage.meta.Has(root) {
		return ErrEntityRepeated
	}
''','''	if err := r.stage.meta.Add(root); err != nil {
		return err
	}
	if err := r.stage.BuildEntity(ctx, root, children...); err != nil {
		return err
	}
	if true {
		return r.stage.updateSnapshot(root)
	}
'''),
('get-nochildren',f,'r.stage.BuildEntity(ctx, root, children...)','r.stage.BuildEntity(ctx, root)'),
('build-nochildren',f,'h.stage.BuildEntity(ctx, parent, children...)','h.stage.BuildEntity(ctx, parent)'),
('only-first-child',f,'	for _, item := range children {\n		itemType','	for _, item := range children[:min(1, len(children))] {\n		itemType'),
('snap-notatomic',f,'			loaded[entity] = &entitySnapshot{','			e.snapshot[entity] = &entitySnapshot{'),
('ok-eq-loop',f,LOOP,'''	n := posPointer.Elem().Len()
	for i := 0; i < n; i++ {
		newEntity := reflect.New(eType)
		ent, _ := newEntity.Interface().(IEntity)
		row, _ := posPointer.Elem().Index(i).Interface().(IModel)
		if err := e.executor.Model2Entity(row, ent); err != nil {
			return fmt.Errorf("row %d: %w", i, err)
		}
		entitiesVal = reflect.Append(entitiesVal, newEntity)
	}
	resultVal.Elem().Set(entitiesVal)
	return nil
'''),
('ok-eq-dest',f,'	resultVal := reflect.ValueOf(children)\n	entitiesVal := resultVal.Elem()\n','	resultVal := reflect.ValueOf(children)\n	entitiesVal := reflect.Indirect(resultVal)\n'),
('ok-eq-helper',f,'	queryPO := posPointer.Elem().Index(0).Interface()\n	return e.executor.Model2Entity(queryPO.(IModel), entity)','	rows := posPointer.Elem()\n	first := rows.Index(0)\n	queryPO, ok := first.Interface().(IModel)\n	if !ok {\n		return ErrEntityNotFound\n	}\n	return e.executor.Model2Entity(queryPO, entity)'),
('ok-eq-valid',f,'itemType == nil || itemType.Kind() != reflect.Ptr || itemVal.IsNil()','!itemVal.IsValid() || itemVal.Kind() != reflect.Ptr || itemVal.IsNil()'),
('ok-eq-set',f,'					itemVal.Elem().SetZero()\n','					itemVal.Elem().Set(reflect.Zero(itemVal.Elem().Type()))\n'),
('cg-getter-none',f,'	getter(ctx, roots...)\n',''),
('cg-getter-bg',f,'	getter(ctx, roots...)\n','	getter(context.Background(), roots...)\n'),
('cg-snap-first-only',f,'	if err := r.stage.updateSnapshot(roots...); err != nil {','	if err := r.stage.updateSnapshot(roots[:1]...); err != nil {'),
('cg-nohas',f,'		if r.stage.meta.Has(root) {\n			return ErrEntityRepeated\n		}\n		if err := loaded','		if err := loaded'),
('cg-nosame',f,'		if err := loaded.Add(root); err != nil {\n			return err\n		}\n','		_ = loaded\n'),
('cg-nosnapcheck',f,'		if r.stage.hasSnapshot(root) {\n			return fmt.Errorf("entity has added")\n		}\n		if r.stage.meta.Has(root) {\n			return ErrEntityRepeated\n		}\n		if err := loaded','		if err := loaded'),
('cg-noadd',f,'	for _, root := range roots {\n		if err := r.stage.meta.Add(root); err != nil {\n			return err\n		}\n	}\n	return nil\n','	return nil\n'),
('cg-snaperr',f,'	if err := r.stage.updateSnapshot(roots...); err != nil {\n		return err\n	}\n	for','	_ = r.stage.updateSnapshot(roots...)\n	for'),
]
