E="engine.go"; S="snapshot.go"; EV="event.go"; B="eventbus/mysql/eventbus.go"; P="eventbus/mysql/po.go"; T="d_timer/sql/timer.go"; L="lock/db/sql.go"; X="executor/mysql/executor.go"; M_="eventbus/mem/eventbus.go"
M = [
 ("ok-batches",X,"db.Create(pos.Interface()).Error","db.CreateInBatches(pos.Interface(), 50).Error"),
 ("ins-cap",X,"\t\tfor _, a := range a.Models {\n\t\t\tpos","\t\tfor i, a := range a.Models {\n\t\t\tif i >= 100 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tpos"),
 ("del-chunk",X,"\t\treturn db.Where(pk+\" in ?\", ids).Delete(newPO).Error","\t\tfor n := len(ids) / 50; n > 0; n-- {\n\t\t\tif err := db.Where(pk+\" in ?\", ids[:50]).Delete(newPO).Error; err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tids = ids[50:]\n\t\t}\n\t\treturn db.Where(pk+\" in ?\", ids[:len(ids)/2+1]).Delete(newPO).Error"),
 ("ok-del-chunk",X,"\t\t\treturn db.Where(pk+\" in ?\", ids).Delete(newPO).Error","\t\t\tfor len(ids) > 50 {\n\t\t\t\tif err := db.Where(pk+\" in ?\", ids[:50]).Delete(newPO).Error; err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tids = ids[50:]\n\t\t\t}\n\t\t\treturn db.Where(pk+\" in ?\", ids).Delete(newPO).Error"),
 ("del-chunk2",X,"\t\t\treturn db.Where(pk+\" in ?\", ids).Delete(newPO).Error","\t\t\tfor len(ids) > 50 {\n\t\t\t\tif err := db.Where(pk+\" in ?\", ids[:50]).Delete(newPO).Error; err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t\tids = ids[51:]\n\t\t\t}\n\t\t\treturn db.Where(pk+\" in ?\", ids).Delete(newPO).Error"),
 ("upd-break-big",X,"\t\t\t\tif len(fields) == 0 {\n\t\t\t\t\tcontinue","\t\t\t\tif len(fields) == 0 {\n\t\t\t\t\tif i > 0 {\n\t\t\t\t\t\treturn nil\n\t\t\t\t\t}\n\t\t\t\t\tcontinue"),
 ("walk-depth",S,"\tfor _, entities := range children {\n\t\tfor _, c := range entities {\n\t\t\tif err := walk(c, entity, f)","\tfor _, entities := range children {\n\t\tfor i, c := range entities {\n\t\t\tif i >= 64 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif err := walk(c, entity, f)"),
 ("orphan-shallow",S,"\t\t\t\t\torphans[c] = true\n\t\t\t\t\tmarkOrphans(c)","\t\t\t\t\torphans[c] = true"),
 ("events-cap",E,"\tevents := make([]*DomainEvent, 0)\n\tfor _, evt := range eventMap {\n","\tevents := make([]*DomainEvent, 0)\n\tfor _, evt := range eventMap {\n\t\tif len(events) >= 100 {\n\t\t\tbreak\n\t\t}\n"),
 ("deleted-events-shallow",E,"\tfor _, del := range e.meta.GetDeleted() {\n\t\t_ = walk(del, nil, func(entity, parent IEntity, children map[string][]IEntity) (err error) {\n","\tfor _, del := range e.meta.GetDeleted() {\n\t\t_ = walk(del, nil, func(entity, parent IEntity, children map[string][]IEntity) (err error) {\n\t\t\tif parent != nil && parent != del {\n\t\t\t\treturn\n\t\t\t}\n"),
 ("idgen-cap",E,"\t\t\tfor _, child := range item.children {\n\t\t\t\tif child.GetID() == \"\" {","\t\t\tfor i, child := range item.children {\n\t\t\t\tif child.GetID() == \"\" && i < 100 {"),
 ("actions-cap",E,"if _, in := typeActions[op][poType]; in {\n","if _, in := typeActions[op][poType]; in && len(typeActions[op][poType].Models) < 100 {\n"),
 ("mem-cap",M_,"\tfor _, evt := range evts {\n\t\te.ch","\tfor i, evt := range evts {\n\t\tif i > 0 && i%100 == 0 {\n\t\t\tcontinue\n\t\t}\n\t\te.ch"),
 ("tx-dispatch-order",E,"\t\tif evt.SendType == SendTypeTransaction {\n\t\t\ttxEvents = append(txEvents, evt)","\t\tif evt.SendType == SendTypeTransaction {\n\t\t\ttxEvents = append([]*DomainEvent{evt}, txEvents...)"),
 ("persist-types",E,"\tpos := make([]IModel, len(events))\n\tfor i, evt := range events {\n","\tpos := make([]IModel, len(events))\n\tif len(events) > 50 {\n\t\tpos = pos[:50]\n\t\tevents = events[:50]\n\t}\n\tfor i, evt := range events {\n"),
 ("dirty-created",S,"\t\t\tfor _, item := range created {\n\t\t\t\tres = append(res, entityDiff(item, pool)...)\n\t\t\t}","\t\t\tfor _, item := range created {\n\t\t\t\tif len(findChildren(item)) == 0 && len(res) > 30 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tres = append(res, entityDiff(item, pool)...)\n\t\t\t}"),
 ("timer-job-third",T,"\tfor _, job := range jobs {\n\t\t// ","\tfor i, job := range jobs {\n\t\tif i > 0 && jobs[i-1].Cron == job.Cron && job.Cron != \"\" {\n\t\t\tcontinue\n\t\t}\n\t\t// "),
 ("timer-limit-two",T,"\tfor _, job := range jobs {\n\t\t// ","\tfor i, job := range jobs {\n\t\tif i >= 2 {\n\t\t\tbreak\n\t\t}\n\t\t// "),
 ("break-nosave",E,"if result.Error != nil || result.Break {","if result.Error != nil || (result.Break && e.eventCtx == nil && len(e.meta.GetDeleted()) > 0) {"),
 ("move-parent",S,"\t\t\t\tchangedItems = append(changedItems, &entityChanged{\n\t\t\t\t\tchangeType: dirtyChildren,\n\t\t\t\t\tparent:     prev.parent,","\t\t\t\tchangedItems = append(changedItems, &entityChanged{\n\t\t\t\t\tchangeType: dirtyChildren,\n\t\t\t\t\tparent:     item.parent,"),
 ("deldeep",S,"\tif pool[parent] != nil {\n\t\tfor key := range pool[parent].children {","\tif pool[parent] != nil && len(childrenList) > 0 {\n\t\tfor key := range pool[parent].children {"),
 ("toslice-partial",S,"\tsort.SliceStable(res, func(i, j int) bool {\n\t\treturn s[res[i]] < s[res[j]]","\tsort.SliceStable(res, func(i, j int) bool {\n\t\treturn s[res[i]]%64 < s[res[j]]%64"),
]
M += [
 ("keys-unsorted",S,"\tsort.Strings(keys)\n","\tsort.Slice(keys, func(i, j int) bool { return keys[i] > keys[j] })\n"),
 ("keys-random",S,"\tsort.Strings(keys)\n",""),
 ("toslice-unsorted",S,"\tsort.SliceStable(res, func(i, j int) bool {\n\t\treturn s[res[i]] < s[res[j]]\n\t})\n",""),
 ("children-first",S,"\t\tif len(created) > 0 {\n\t\t\tres = append(res, &entityChanged{\n\t\t\t\tchangeType: newChildren,\n\t\t\t\tparent:     parent,\n\t\t\t\tkey:        key,\n\t\t\t\tchildren:   created,\n\t\t\t})\n\t\t\tfor _, item := range created {\n\t\t\t\tres = append(res, entityDiff(item, pool)...)\n\t\t\t}\n\t\t}","\t\tif len(created) > 0 {\n\t\t\tfor _, item := range created {\n\t\t\t\tres = append(res, entityDiff(item, pool)...)\n\t\t\t}\n\t\t\tres = append(res, &entityChanged{\n\t\t\t\tchangeType: newChildren,\n\t\t\t\tparent:     parent,\n\t\t\t\tkey:        key,\n\t\t\t\tchildren:   created,\n\t\t\t})\n\t\t}"),
 ("sort-unstable-rev",S,"\tsort.SliceStable(changedItems, func(i, j int) bool {\n\t\treturn changedItems[i].changeType < changedItems[j].changeType\n\t})","\tfor i, j := 0, len(changedItems)-1; i < j; i, j = i+1, j-1 {\n\t\tchangedItems[i], changedItems[j] = changedItems[j], changedItems[i]\n\t}\n\tsort.SliceStable(changedItems, func(i, j int) bool {\n\t\treturn changedItems[i].changeType < changedItems[j].changeType\n\t})"),
 ("potypes-last",E,"\t\t\tpoTypes = append(poTypes, poType)","\t\t\tpoTypes = append([]reflect.Type{poType}, poTypes...)"),
 ("ok-typemap",E,"\t\t\tpoTypes = append(poTypes, poType)","\t\t\tif m := typeActions[op]; m == nil || m[poType] == nil {\n\t\t\t\tpoTypes = append(poTypes, poType)\n\t\t\t}"),
]
