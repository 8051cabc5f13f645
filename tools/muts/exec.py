f='executor/mysql/executor.go'
M=[
('begin-plainctx',f,'return context.WithValue(ctx, e.txKey, tx), nil','return context.WithValue(context.Background(), e.txKey, tx), nil'),
('begin-noctx',f,'return context.WithValue(ctx, e.txKey, tx), nil','return ctx, nil'),
('begin-noerr',f,'''	if tx.Error != nil {
		return ctx, fmt.Errorf("start transation failed, err=%s", tx.Error)
	}
''',''),
('commit-noerr',f,'return tx.Commit().Error','tx.Commit()\n	return nil'),
('rollback-commits',f,'return tx.Rollback().Error','return tx.Commit().Error'),
('commit-notx-ok',f,'''	if val == nil {
		return ErrNoTransaction
	}

	tx := val.(*gorm.DB)
	return tx.Commit().Error''','''	if val == nil {
		return nil
	}

	tx := val.(*gorm.DB)
	return tx.Commit().Error'''),
('exec-plain',f,'		db = val.(*gorm.DB)\n','		_ = val.(*gorm.DB)\n'),
('insert-first',f,'for _, a := range a.Models {\n			pos','for _, a := range a.Models[:1] {\n			pos'),
('insert-conflict',f,'return db.Create(pos.Interface()).Error','return db.Clauses(clause.OnConflict{DoNothing: true}).Create(pos.Interface()).Error',f,'	"gorm.io/gorm/schema"','	"gorm.io/gorm/clause"\n	"gorm.io/gorm/schema"'),
('insert-save',f,'return db.Create(pos.Interface()).Error','return db.Save(pos.Interface()).Error'),
('update-prev0',f,'a.PrevModels[i])','a.PrevModels[0])'),
('update-return',f,'''				if len(fields) == 0 {
					continue
				}''','''				if len(fields) == 0 {
					return nil
				}'''),
('update-noselect',f,'db.Select(fields).Updates(m)','db.Updates(m)'),
('update-err',f,'''if err := db.Select(fields).Updates(m).Error; err != nil {
					return err
				}''','''if err := db.Select(fields).Updates(m).Error; err != nil {
					continue
				}'''),
('update-nosave',f,'''			} else {
				if err := db.Save(m.(IModel)).Error; err != nil {
					return err
				}
			}''','''			}'''),
('update-saveupd',f,'db.Save(m.(IModel)).Error','db.Updates(m.(IModel)).Error'),
('delete-first',f,'for _, m := range a.Models {\n				ids','for _, m := range a.Models[1:] {\n				ids'),
('delete-len',f,'if len(a.Models) == 1 {\n				return','if len(a.Models) >= 1 {\n				return'),
('delete-comp',f,'if len(s.PrimaryFields) == 1 {','if len(s.PrimaryFields) >= 1 {'),
('delete-noerr',f,'''			if err := db.Delete(m).Error; err != nil {
				return err
			}
		}
		return nil''','''			db.Delete(m)
		}
		return nil'''),
('delete-schema',f,'''		if err != nil {
			return err
		}

		if len(s.P''','''		if err != nil {
			return nil
		}

		if len(s.P'''),
('query-first',f,'db.Where(a.Query).Find(a.QueryResult)','db.Where(a.Query).First(a.QueryResult)'),
('query-noq',f,'db.Where(a.Query).Find(a.QueryResult)','db.Find(a.QueryResult)'),
('query-noerr',f,'		return res.Error','		_ = res\n		return nil'),
('unknown-nil',f,'return fmt.Errorf("unsupport op(%d) for mysql executor", action.Op)','return nil'),
('samekey',f,'contextKey(fmt.Sprintf("executor_tx_%s", xid.New().String()))','contextKey("executor_tx_" + xid.New().String()[:0])'),
('ok-inline',f,'	return f(db, action)','	err := f(db, action)\n	if err != nil {\n		return err\n	}\n	return nil'),
('ok-find',f,'db.Where(a.Query).Find(a.QueryResult)','db.Find(a.QueryResult, a.Query)'),
('ok-in',f,'''			if len(a.Models) == 1 {
				return db.Where(pk+" = ?", a.Models[0].GetID()).Delete(newPO).Error
			}
''',''),
('ok-model',f,'db.Select(fields).Updates(m)','db.Model(m).Select(fields).Updates(m)'),
('ok-ctx',f,'db := e.db\n\n	val := ctx.Value(e.txKey)\n	if val != nil {\n		db = val.(*gorm.DB)\n	}','db := e.db\n	if tx, ok := ctx.Value(e.txKey).(*gorm.DB); ok {\n		db = tx\n	}'),
('ok-idx',f,'for _, m := range a.Models {\n				ids = append(ids, m.GetID())\n			}','for i := 0; i < len(a.Models); i++ {\n				ids = append(ids, a.Models[i].GetID())\n			}'),
('ok-switch',f,'''	f, ok := opMap[action.Op]
	if !ok {''','''	var f execFunc
	ok := true
	switch action.Op {
	case ddd.OpInsert, ddd.OpUpdate, ddd.OpDelete, ddd.OpQuery:
		f = opMap[action.Op]
	default:
		ok = false
	}
	if !ok {'''),
('ok-slice',f,'''			ids := make([]string, 0)
''','''			ids := make([]string, 0, len(a.Models))
'''),
]
