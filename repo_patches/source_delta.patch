From e6accc34268e382dabaef0fec8d644e1a0a3b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 01/30] fix: recognise a wrapped ErrEntityNotRegister when
 taking the snapshot

errors.Is was called with its arguments swapped, so only the bare sentinel
was tolerated and a converter that wraps it made every save fail.
---
 engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index ed20575..2907826 100644
--- a/engine.go
+++ b/engine.go
@@ -856,7 +856,7 @@ func (e *Stage) updateSnapshot() error {
 		}
 
 		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
 			return err
 		}
 		e.snapshot[entity] = &entitySnapshot{
-- 
2.43.0


From 67ad7f8162e16f529ca449eb385a5d90154d52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 02/30] fix: keep unsaved additions and removals out of the
 baseline

Loading a root rebuilt the baseline from the live repository, so roots added
or removed before were taken for persisted and never inserted or deleted.
Only the loaded roots are added to the baseline now.
---
 engine.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/engine.go b/engine.go
index 2907826..38c8052 100644
--- a/engine.go
+++ b/engine.go
@@ -210,7 +210,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.updateSnapshot(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -226,7 +226,7 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		}
 	}
 
-	return r.stage.updateSnapshot()
+	return r.stage.updateSnapshot(roots...)
 }
 
 // Add 添加聚合根到仓库
@@ -253,7 +253,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.updateSnapshot(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -845,26 +845,36 @@ func childrenSnapshot(children map[string][]IEntity) map[string][]IEntity {
 
 func (e *Stage) flush() error {
 	e.snapshot = entitySnapshotPool{}
-	return e.updateSnapshot()
+	return e.updateSnapshot(e.meta.roots...)
 }
 
-// 更新快照，已有的不覆盖
-func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
-		if _, in := e.snapshot[entity]; in && entity != e.meta {
-			return nil
-		}
+// 把 roots 及其子实体加入快照，已有的不覆盖，也不影响其他还未保存的变更
+func (e *Stage) updateSnapshot(roots ...IEntity) error {
+	if e.snapshot[e.meta] == nil {
+		e.snapshot[e.meta] = &entitySnapshot{children: map[string][]IEntity{}}
+	}
+	loaded := e.snapshot[e.meta].children
+	for _, root := range roots {
+		if err := walk(root, e.meta, func(entity, parent IEntity, children map[string][]IEntity) error {
+			if _, in := e.snapshot[entity]; in {
+				return nil
+			}
 
-		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
+			po, err := e.executor.Entity2Model(entity, parent, OpQuery)
+			if err != nil && !errors.Is(err, ErrEntityNotRegister) {
+				return err
+			}
+			e.snapshot[entity] = &entitySnapshot{
+				po:       po,
+				children: childrenSnapshot(children),
+			}
+			return nil
+		}); err != nil {
 			return err
 		}
-		e.snapshot[entity] = &entitySnapshot{
-			po:       po,
-			children: childrenSnapshot(children),
-		}
-		return nil
-	})
+		loaded["meta"] = append(loaded["meta"], root)
+	}
+	return nil
 }
 
 func (e *Stage) hasSnapshot(target IEntity) bool {
-- 
2.43.0


From 149da3bf75c7e82eb23e3b44bca2c79fcb3e7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 03/30] fix: do not filter the moved entities while iterating
 over them

entityChanged.Remove compacts the slice in place, so with several moved
entities some were visited twice and the save failed as repeated.
---
 snapshot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index b32d016..04e2d1f 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -275,7 +275,8 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 
 	entities := map[IEntity]*entityChanged{}
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// 下面会修改 item.children，遍历的是拷贝
+		for _, entity := range append([]IEntity{}, item.children...) {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
-- 
2.43.0


From 147d4e57f627c99219b35751c95c735aab851838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 04/30] fix: report add and remove errors of the container
 passed to Act

RootContainer is passed by value, so the errors it collected in Act were lost.
---
 engine.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 38c8052..be017b4 100644
--- a/engine.go
+++ b/engine.go
@@ -164,20 +164,20 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *ErrList
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
@@ -792,11 +792,12 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		errs := ErrList{}
+		container := RootContainer{stage: repo.stage, errs: &errs}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(errs) > 0 {
+			return errs
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From b63dd1839ece0bc0368f4786228ce948cedc29d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 05/30] fix: do not share the backing array of post-save hooks
 between runs

---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index be017b4..7017234 100644
--- a/engine.go
+++ b/engine.go
@@ -417,7 +417,9 @@ func WithIDGenerator(idGen IIDGenerator) IDGeneratorOption {
 type PostSaveOption PostSaveFunc
 
 func (t PostSaveOption) ApplyToOptions(opts *Options) {
-	opts.PostSaveHooks = append(opts.PostSaveHooks, PostSaveFunc(t))
+	// Options 是值拷贝，限制 cap 避免写入与 Engine 共享的底层数组
+	hooks := opts.PostSaveHooks
+	opts.PostSaveHooks = append(hooks[:len(hooks):len(hooks)], PostSaveFunc(t))
 }
 
 func WithPostSave(f PostSaveFunc) PostSaveOption {
-- 
2.43.0


From 76859cb1172c26148963e3b693ec0ec940bb6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 06/30] fix: let errors.Is see through ErrList

Result.Error is often an ErrList, which hid ErrEntityLocked and every other
cause from errors.Is.
---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 7017234..d664279 100644
--- a/engine.go
+++ b/engine.go
@@ -129,6 +129,11 @@ func (e ErrList) Error() string {
 	return strings.Join(errs, ", ")
 }
 
+// Unwrap 支持 errors.Is 和 errors.As
+func (e ErrList) Unwrap() []error {
+	return e
+}
+
 type Result struct {
 	Error   error
 	Break   bool
-- 
2.43.0


From 84376b2245042e4c7ab072f2a571e075fc41f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 07/30] fix: convert the status of a transaction checker
 instead of panicking

Registration accepts every type convertible to TXStatus.
---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From 8aade539bec0c8f6f985764d688912fbd0a77476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 08/30] fix: delete the children of a child key that
 disappeared

The diff only looked at the current keys of GetChildren.
---
 snapshot.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/snapshot.go b/snapshot.go
index 04e2d1f..0857c05 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -213,6 +213,14 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	for key := range childrenList {
 		keys = append(keys, key)
 	}
+	// 快照中有、但当前已不存在的 key，其下的子实体都已被删除
+	if pool[parent] != nil {
+		for key := range pool[parent].children {
+			if _, in := childrenList[key]; !in {
+				keys = append(keys, key)
+			}
+		}
+	}
 	sort.Strings(keys)
 	for _, key := range keys {
 		children := childrenList[key]
-- 
2.43.0


From eef20e3ae65536e7762b48133a0cea341a45a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 09/30] fix: stop the memory event bus when its context ends

The break only left the select, so the worker went on in a busy loop.
---
 eventbus/mem/eventbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..8075756 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -53,7 +53,7 @@ func (e *MemoryEventBus) Start(ctx context.Context) {
 			case evt := <-e.ch:
 				_ = e.cb(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From 47cfb349d97937770adcc24d400c9de39e8707c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 10/30] fix: end the renewal goroutine of DBLock.Run with the
 function

Stopping a ticker does not close its channel, so the goroutine leaked, and it
shared the variable err with Run without synchronisation.
---
 lock/db/sql.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..9972c4d 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -173,13 +173,20 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	// 业务函数执行完成后，会停止renew 协程
 	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	// ticker.Stop 不会关闭 ticker.C，需要通过 subCtx 通知 renew 协程退出
+	defer cancel()
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
-				// 续期失败，会通知业务函数停止执行
-				cancel()
-				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+		for {
+			select {
+			case <-subCtx.Done():
+				return
+			case <-ticker.C:
+				if err := r.update(ctx, locker); err != nil {
+					// 续期失败，会通知业务函数停止执行
+					cancel()
+					r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
+					return
+				}
 			}
 		}
 	}()
-- 
2.43.0


From bd6dc0943efedf14e7408d45de8f3136aedc5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 11/30] fix: store events and service events in one transaction

Dispatch opened a transaction but wrote through another handle, so a failure
between the inserts left an event without deliveries.
---
 eventbus/mysql/eventbus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..650958f 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -269,8 +269,8 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
@@ -290,7 +290,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 0b96451ead7cede4ca62a94a43f1493681f5e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 12/30] fix: remove the message record when its events are
 already stored

Commit returned early in that case, so the message was rechecked forever.
---
 eventbus/mysql/eventbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 650958f..7e228a8 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -326,7 +326,7 @@ func (e *EventBus) Commit(ctx context.Context) error {
 	}
 
 	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
+	if err != nil && err != gorm.ErrRecordNotFound {
 		return err
 	}
 	if err == gorm.ErrRecordNotFound {
-- 
2.43.0


From 28ccf9af689d50f97c247c7ce9131781b1f1b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 13/30] fix: recheck the locked service_event instead of the
 scanned one

The status read before locking was checked, so two instances could handle
the same event, and a save could overwrite the outcome of the other.
---
 eventbus/mysql/eventbus.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 7e228a8..71578bf 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -555,6 +555,8 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
 			return err
 		}
+		// 扫描后 service_event 可能已被其他实例更新，以加锁后读到的为准
+		*spo = *currentServiceEvent
 		// 二次确认下service_event 未被处理
 		if spo.Status != ServiceEventStatusInit {
 			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
-- 
2.43.0


From 84b62ebb9205fcfcac60b214be46fb8de13bb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 14/30] fix: pair scanned service events with events by id

The two lists were paired by index, which shifts when an event row is missing.
---
 eventbus/mysql/eventbus.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 71578bf..476c61e 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -425,11 +425,19 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
+	// 按 event id 匹配，event 可能缺失，不能依赖两个列表的下标一致
+	eventByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventByID[eventPO.ID] = eventPO
+	}
 	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
+	for _, serviceEvent := range serviceEventPOs {
+		eventPO, ok := eventByID[serviceEvent.EventID]
+		if !ok {
+			continue
+		}
 		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
+			ServiceEvent: serviceEvent,
 			Event:        eventPO,
 		})
 	}
-- 
2.43.0


From f0d57dab2e805e6a38587001f2a36539237f2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 15/30] fix: cancel only the timer of the own service

Cancel matched on the key alone and deleted the job of any service.
---
 d_timer/sql/timer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..88913dd 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -90,7 +90,7 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 }
 
 func (t *DBTimer) Cancel(key string) error {
-	return t.db.Unscoped().Where(TimerJob{Key: key}).Delete(&TimerJob{}).Error
+	return t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error
 }
 
 func (t *DBTimer) run(job *TimerJob) error {
-- 
2.43.0


From 07cf8014a86e39d92007f170390621dce794eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 16/30] fix: keep the timer worker alive without or with a
 panicking callback

A job that became due before a callback was registered, or a panic in the
callback, terminated the process from the worker goroutine.
---
 d_timer/sql/timer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 88913dd..1c4a969 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,8 +2,10 @@ package sql
 
 import (
 	"context"
+	"fmt"
 	stdlog "log"
 	"os"
+	"runtime/debug"
 	"sync"
 	"time"
 
@@ -107,7 +109,21 @@ func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
 	t.cb = cb
 }
 
+// call 执行回调，回调 panic 视为执行失败，不影响其他任务
+func (t *DBTimer) call(ctx context.Context, job *TimerJob) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("panic: %v stack:%s", r, string(debug.Stack()))
+		}
+	}()
+	return t.cb(ctx, job.Key, job.Cron, job.Payload)
+}
+
 func (t *DBTimer) handleJobs(ctx context.Context) error {
+	// 还未注册回调，不处理
+	if t.cb == nil {
+		return nil
+	}
 	jobs := make([]*TimerJob, 0)
 	if err := t.db.Where(
 		"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,
@@ -130,7 +146,7 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 				return nil
 			}
 
-			if err := t.cb(ctx, job.Key, job.Cron, job.Payload); err != nil {
+			if err := t.call(ctx, job); err != nil {
 				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
 			}
 			if err := job.Next(); err != nil {
-- 
2.43.0


From 00145a51e95e8883aaed24e50b4ee4c0eb2f9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 17/30] fix: keep the event bus worker alive when a transaction
 checker panics

The check runs on the worker goroutine without recover, and before any engine
registered itself there is no checker to call.
---
 eventbus/mysql/eventbus.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 476c61e..baa895d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -643,6 +643,16 @@ func (e *EventBus) handleEvents() error {
 }
 
 func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
+	// 还未注册回查，留待下次处理
+	if e.txChecker == nil {
+		return
+	}
+	defer func() {
+		if r := recover(); r != nil {
+			err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
+			e.logger.Error(err, "[eventbus] panic while checking transaction")
+		}
+	}()
 	ctx = e.ctxWithTX(ctx, tx)
 	evt := tx.Events[0]
 	st := e.txChecker(evt)
-- 
2.43.0


From 71dc3bc36ec8f54a1e9160e2c4070b883b91831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 18/30] fix: synchronise the callbacks of event buses and the
 timer

Every run registers the engine callbacks again while the worker goroutines
read them, which is a data race.
---
 d_timer/sql/timer.go       | 13 +++++++++++--
 eventbus/mem/eventbus.go   | 17 ++++++++++++++---
 eventbus/mysql/eventbus.go | 21 +++++++++++++++++----
 3 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 1c4a969..9544251 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -40,6 +40,7 @@ type DBTimer struct {
 	service string
 	db      *gorm.DB
 	cb      ddd.TimerHandler
+	cbMu    sync.RWMutex // 保护 cb，每次 Run 都会重新注册
 	opt     Options
 	logger  logr.Logger
 	once    sync.Once
@@ -106,9 +107,17 @@ func (t *DBTimer) run(job *TimerJob) error {
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
+	t.cbMu.Lock()
+	defer t.cbMu.Unlock()
 	t.cb = cb
 }
 
+func (t *DBTimer) getCallback() ddd.TimerHandler {
+	t.cbMu.RLock()
+	defer t.cbMu.RUnlock()
+	return t.cb
+}
+
 // call 执行回调，回调 panic 视为执行失败，不影响其他任务
 func (t *DBTimer) call(ctx context.Context, job *TimerJob) (err error) {
 	defer func() {
@@ -116,12 +125,12 @@ func (t *DBTimer) call(ctx context.Context, job *TimerJob) (err error) {
 			err = fmt.Errorf("panic: %v stack:%s", r, string(debug.Stack()))
 		}
 	}()
-	return t.cb(ctx, job.Key, job.Cron, job.Payload)
+	return t.getCallback()(ctx, job.Key, job.Cron, job.Payload)
 }
 
 func (t *DBTimer) handleJobs(ctx context.Context) error {
 	// 还未注册回调，不处理
-	if t.cb == nil {
+	if t.getCallback() == nil {
 		return nil
 	}
 	jobs := make([]*TimerJob, 0)
diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 8075756..cedccb1 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -23,8 +23,9 @@ import (
 )
 
 type MemoryEventBus struct {
-	ch chan *dddfirework.DomainEvent
-	cb dddfirework.DomainEventHandler
+	ch   chan *dddfirework.DomainEvent
+	cb   dddfirework.DomainEventHandler
+	cbMu sync.RWMutex // 保护 cb，每次 Run 都会重新注册
 
 	once sync.Once
 }
@@ -43,15 +44,25 @@ func (e *MemoryEventBus) Dispatch(ctx context.Context, evts ...*dddfirework.Doma
 }
 
 func (e *MemoryEventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler) {
+	e.cbMu.Lock()
+	defer e.cbMu.Unlock()
 	e.cb = cb
 }
 
+func (e *MemoryEventBus) getCallback() dddfirework.DomainEventHandler {
+	e.cbMu.RLock()
+	defer e.cbMu.RUnlock()
+	return e.cb
+}
+
 func (e *MemoryEventBus) Start(ctx context.Context) {
 	run := func() {
 		for {
 			select {
 			case evt := <-e.ch:
-				_ = e.cb(ctx, evt)
+				if cb := e.getCallback(); cb != nil {
+					_ = cb(ctx, evt)
+				}
 			case <-ctx.Done():
 				return
 			}
diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index baa895d..af9139c 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -163,6 +163,7 @@ type EventBus struct {
 	txKey     contextKey
 
 	cb        dddfirework.DomainEventHandler
+	cbMu      sync.RWMutex // 保护 cb 和 txChecker，每次 Run 都会重新注册
 	cleanCron *cron.Cron
 	once      sync.Once
 }
@@ -299,9 +300,17 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 }
 
 func (e *EventBus) RegisterEventTXChecker(checker dddfirework.DomainEventTXChecker) {
+	e.cbMu.Lock()
+	defer e.cbMu.Unlock()
 	e.txChecker = checker
 }
 
+func (e *EventBus) getCallbacks() (dddfirework.DomainEventHandler, dddfirework.DomainEventTXChecker) {
+	e.cbMu.RLock()
+	defer e.cbMu.RUnlock()
+	return e.cb, e.txChecker
+}
+
 // DispatchBegin 开启事务消息
 func (e *EventBus) DispatchBegin(ctx context.Context, evts ...*dddfirework.DomainEvent) (context.Context, error) {
 	if len(evts) == 0 {
@@ -355,6 +364,8 @@ func (e *EventBus) onPostSave(ctx context.Context, res *dddfirework.Result) {
 }
 
 func (e *EventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler) {
+	e.cbMu.Lock()
+	defer e.cbMu.Unlock()
 	e.cb = cb
 }
 
@@ -597,7 +608,8 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			}
 		}
 		e.logger.V(logger.LevelInfo).Info("eventbus handle event", "event db id", spo.EventID, "event id", po.EventID)
-		err = e.cb(ctx, po.Event)
+		cb, _ := e.getCallbacks()
+		err = cb(ctx, po.Event)
 		if err != nil {
 			// 更新 retry_limit 以及 next_time，超出重试限制，则status置为失败。为了支持自定义RetryStrategy，所以通过NextTime 而不是RunAt来控制重试间隔
 			e.doRetryStrategy(spo)
@@ -644,7 +656,8 @@ func (e *EventBus) handleEvents() error {
 
 func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
 	// 还未注册回查，留待下次处理
-	if e.txChecker == nil {
+	_, txChecker := e.getCallbacks()
+	if txChecker == nil {
 		return
 	}
 	defer func() {
@@ -655,7 +668,7 @@ func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
 	}()
 	ctx = e.ctxWithTX(ctx, tx)
 	evt := tx.Events[0]
-	st := e.txChecker(evt)
+	st := txChecker(evt)
 	if st == dddfirework.TXCommit {
 		if err := e.Commit(ctx); err != nil {
 			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
@@ -771,7 +784,7 @@ func (e *EventBus) Start(ctx context.Context) {
 				e.logger.Error(err, "handle transaction failed")
 			}
 
-			if e.cb != nil {
+			if cb, _ := e.getCallbacks(); cb != nil {
 				if err := e.handleEvents(); err != nil {
 					if errors.Is(err, ErrServiceNotCreate) {
 						_ = e.initService()
-- 
2.43.0


From e0806655e5dce33e58e0344dbba960f80b259137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 19/30] fix: a child moved out of a deleted parent is updated,
 not inserted again

---
 engine.go   |  7 ++++--
 snapshot.go | 69 +++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index d664279..9bff257 100644
--- a/engine.go
+++ b/engine.go
@@ -900,13 +900,16 @@ func (e *Stage) unDirty() {
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
 	// 处理实体移动的场景
-	changed, err := handleEntityMove(changed)
+	changed, err := handleEntityMove(changed, e.snapshot)
 	if err != nil {
 		return nil, err
 	}
 	// 处理递归删除子实体
 	if e.options.RecursiveDelete {
-		changed = recursiveDelete(changed)
+		changed, err = recursiveDelete(changed)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return changed, nil
 }
diff --git a/snapshot.go b/snapshot.go
index 0857c05..c7923e7 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -275,7 +275,31 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
-func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
+func handleEntityMove(changedItems []*entityChanged, pool entitySnapshotPool) ([]*entityChanged, error) {
+	// 父实体被删除时，快照中它的子实体不会作为删除出现在变更里，但仍然是已持久化的实体
+	orphans := map[IEntity]bool{}
+	var markOrphans func(parent IEntity)
+	markOrphans = func(parent IEntity) {
+		if pool[parent] == nil {
+			return
+		}
+		for _, children := range pool[parent].children {
+			for _, c := range children {
+				if !orphans[c] {
+					orphans[c] = true
+					markOrphans(c)
+				}
+			}
+		}
+	}
+	for _, item := range changedItems {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				markOrphans(c)
+			}
+		}
+	}
+
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
 		return changedItems[i].changeType < changedItems[j].changeType
@@ -308,29 +332,64 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 			}
 		}
 	}
+
+	// 从被删除的父实体移动到另一个父实体下，同样判定为更新操作
+	for _, item := range changedItems {
+		if item.changeType != newChildren {
+			continue
+		}
+		for _, entity := range append([]IEntity{}, item.children...) {
+			if orphans[entity] {
+				item.Remove(entity)
+				changedItems = append(changedItems, &entityChanged{
+					changeType: dirtyChildren,
+					parent:     item.parent,
+					key:        item.key,
+					children:   []IEntity{entity},
+				})
+			}
+		}
+	}
 	return changedItems, nil
 }
 
-func recursiveDelete(changed []*entityChanged) []*entityChanged {
+func recursiveDelete(changed []*entityChanged) ([]*entityChanged, error) {
+	handled := map[IEntity]changeType{}
+	for _, item := range changed {
+		for _, c := range item.children {
+			handled[c] = item.changeType
+		}
+	}
 	for _, item := range changed {
 		if item.changeType == deleteChildren {
 			for _, c := range item.children {
 				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
 					for key, entities := range children {
+						deleted := make([]IEntity, 0, len(entities))
+						for _, c := range entities {
+							ct, in := handled[c]
+							if in && ct != deleteChildren {
+								return fmt.Errorf("entity(id=%s type=%v) repeated", c.GetID(), reflect.TypeOf(c))
+							}
+							if !in {
+								handled[c] = deleteChildren
+								deleted = append(deleted, c)
+							}
+						}
 						changed = append(changed, &entityChanged{
 							changeType: deleteChildren,
 							parent:     entity,
 							key:        key,
-							children:   entities,
+							children:   deleted,
 						})
 					}
 					return nil
 				}); err != nil {
-					return nil
+					return nil, err
 				}
 			}
 		}
 	}
 
-	return changed
+	return changed, nil
 }
-- 
2.43.0


From b3876140007b1163f81f6ddcece0822275ed9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 20/30] fix: an error of the cleanup cursor is returned

---
 eventbus/mysql/eventbus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index af9139c..68e48cf 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -767,6 +767,9 @@ func (e *EventBus) cleanEvents() error {
 			eventIDs = eventIDs[:0]
 		}
 	}
+	if err = rows.Err(); err != nil {
+		return err
+	}
 	if len(eventIDs) > 0 {
 		if err = deleteServiceEvents(eventIDs); err != nil {
 			return err
-- 
2.43.0


From 4a88e780093facdf5ff559c80c96f30449ca3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 21/30] fix: executors created in one second no longer share
 their transactions

---
 executor/mysql/executor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..b09ac47 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,9 +19,9 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
 
 	ddd "github.com/bytedance/dddfirework"
+	"github.com/rs/xid"
 	"gorm.io/gorm"
 	"gorm.io/gorm/schema"
 )
@@ -148,7 +148,7 @@ type Executor struct {
 func NewExecutor(db *gorm.DB) *Executor {
 	return &Executor{
 		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
+		txKey: contextKey(fmt.Sprintf("executor_tx_%s", xid.New().String())),
 	}
 }
 
-- 
2.43.0


From 4df79ed0bf5e35a49737ff5f56770bfa067248ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 22/30] fix: event buses created in one second no longer share
 context keys

---
 eventbus/mysql/eventbus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 68e48cf..47290d8 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -26,6 +26,7 @@ import (
 
 	"github.com/go-logr/logr"
 	"github.com/robfig/cron"
+	"github.com/rs/xid"
 	"gorm.io/gorm"
 	"gorm.io/gorm/clause"
 
@@ -212,7 +213,7 @@ func NewEventBus(serviceName string, db *gorm.DB, options ...Option) *EventBus {
 		logger:        opt.Logger,
 		retryStrategy: strategy,
 		opt:           opt,
-		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", time.Now().Unix())),
+		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%s", xid.New().String())),
 		cleanCron:     cron.New(),
 	}
 	_ = eb.initService()
-- 
2.43.0


From 92665500a476baf06a57d2e6f572e07efda12a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 23/30] fix: log errors of the MySQL bus worker while handling
 an event

---
 eventbus/mysql/eventbus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 47290d8..fcfb462 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -493,7 +493,9 @@ func (e *EventBus) dispatchEvents(ctx context.Context, eventPOs []*EventTuple, s
 			cb := func(ctx context.Context, po *EventPO, spo *ServiceEventPO) {
 				// 某个event 的处理成败，不影响后续事件的处理
 				// 对于保序事件，因为前序事件没有执行，后面同sender event也不用继续了。但毕竟后续还有非保序事件要处理，所以也不会因为ErrPrecedingEventNotReady 就终止事件消费流程
-				_ = e.handleEvent(ctx, po, spo, scanStartEventID)
+				if err := e.handleEvent(ctx, po, spo, scanStartEventID); err != nil && !errors.Is(err, ErrPrecedingEventNotReady) {
+					e.logger.Error(err, "handle event failed", "event_id", spo.EventID)
+				}
 			}
 			for po := range eventChan {
 				cb(ctx, po.Event, po.ServiceEvent)
-- 
2.43.0


From 966a0662cdbac43f6ecb5c3d542cedbd32f69b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 24/30] fix: refuse timer expressions that never fire

---
 d_timer/sql/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/model.go b/d_timer/sql/model.go
index 3ac8f65..0a1dbbd 100644
--- a/d_timer/sql/model.go
+++ b/d_timer/sql/model.go
@@ -45,7 +45,13 @@ func (t *TimerJob) Reset() error {
 		return err
 	}
 
-	t.NextTime = scheduler.Next(time.Now())
+	next := scheduler.Next(time.Now())
+	if next.IsZero() {
+		// 表达式永远不会触发，零值的 NextTime 会被当成一直到期
+		t.Close(ErrTimerOverdue)
+		return ErrTimerOverdue
+	}
+	t.NextTime = next
 	t.Status = TimerToRun
 	return nil
 }
-- 
2.43.0


From cd8017c1903a175e6da29ee1fa56fbd43c73bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 25/30] fix: let services use the same timer keys

---
 d_timer/sql/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d_timer/sql/model.go b/d_timer/sql/model.go
index 0a1dbbd..f805dd1 100644
--- a/d_timer/sql/model.go
+++ b/d_timer/sql/model.go
@@ -12,8 +12,8 @@ var ErrTimerOverdue = fmt.Errorf("timer overdue")
 
 type TimerJob struct {
 	ID        int64       `gorm:"primaryKey;column:id;autoIncrement"`
-	Service   string      `gorm:"column:service;type:varchar(30)"`
-	Key       string      `gorm:"column:key;type:varchar(30);uniqueIndex;not null"`
+	Service   string      `gorm:"column:service;type:varchar(30);uniqueIndex:idx_ddd_timer_service_key,priority:1"`
+	Key       string      `gorm:"column:key;type:varchar(30);uniqueIndex:idx_ddd_timer_service_key,priority:2;not null"`
 	Cron      string      `gorm:"column:cron;type:varchar(30);null"`
 	NextTime  time.Time   `gorm:"column:next_time;type:datetime;index;not null"`
 	Status    TimerStatus `gorm:"column:status;type:tinyint"`
-- 
2.43.0


From 03cc78d310e26631a59d88ba48eb7f2cf0e79e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 26/30] fix: refuse cron timers without expression

---
 d_timer/sql/model.go | 1 +
 d_timer/sql/timer.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/d_timer/sql/model.go b/d_timer/sql/model.go
index f805dd1..3c55450 100644
--- a/d_timer/sql/model.go
+++ b/d_timer/sql/model.go
@@ -9,6 +9,7 @@ import (
 )
 
 var ErrTimerOverdue = fmt.Errorf("timer overdue")
+var ErrCronEmpty = fmt.Errorf("cron expression is empty")
 
 type TimerJob struct {
 	ID        int64       `gorm:"primaryKey;column:id;autoIncrement"`
diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 9544251..d26a9f7 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -67,6 +67,10 @@ func NewDBTimer(service string, db *gorm.DB, opts ...Option) *DBTimer {
 }
 
 func (t *DBTimer) RunCron(key, cronExp string, data []byte) error {
+	// 空表达式的任务会被当成单次任务
+	if cronExp == "" {
+		return ErrCronEmpty
+	}
 	newTimer := TimerJob{
 		Service: t.service,
 		Key:     key,
-- 
2.43.0


From e33c923cde86825900791bd1c5ba2747b54ef993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 27/30] fix: look for a timer with an empty key by its key

---
 d_timer/sql/timer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index d26a9f7..970c3e6 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -104,10 +104,8 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
-	return t.db.Where(TimerJob{
-		Service: t.service,
-		Key:     job.Key,
-	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	// 用 map 作为条件，避免零值字段被忽略
+	return t.db.Where(map[string]interface{}{"service": t.service, "key": job.Key}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
-- 
2.43.0


From cd2234be48b7626330c84d668e874e888958ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 28/30] fix: a load that fails in its baseline no longer leaves
 the root to be inserted

---
 engine.go | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/engine.go b/engine.go
index 9bff257..e0101d8 100644
--- a/engine.go
+++ b/engine.go
@@ -212,26 +212,43 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 		return err
 	}
 
-	if err := r.stage.meta.Add(root); err != nil {
+	if r.stage.meta.Has(root) {
+		return ErrEntityRepeated
+	}
+	// 先建立快照再加入仓库，快照失败的实体不能被当作新建实体保存
+	if err := r.stage.updateSnapshot(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot(root)
+	return r.stage.meta.Add(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
 func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Context, root ...IEntity), roots ...IEntity) error {
 	getter(ctx, roots...)
 
+	loaded := EntityContainer{}
 	for _, root := range roots {
 		if r.stage.hasSnapshot(root) {
 			return fmt.Errorf("entity has added")
 		}
-		if err := r.stage.meta.Add(root); err != nil {
+		if r.stage.meta.Has(root) {
+			return ErrEntityRepeated
+		}
+		if err := loaded.Add(root); err != nil {
 			return err
 		}
 	}
 
-	return r.stage.updateSnapshot(roots...)
+	// 先建立快照再加入仓库，快照失败的实体不能被当作新建实体保存
+	if err := r.stage.updateSnapshot(roots...); err != nil {
+		return err
+	}
+	for _, root := range roots {
+		if err := r.stage.meta.Add(root); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // Add 添加聚合根到仓库
@@ -856,23 +873,26 @@ func (e *Stage) flush() error {
 	return e.updateSnapshot(e.meta.roots...)
 }
 
-// 把 roots 及其子实体加入快照，已有的不覆盖，也不影响其他还未保存的变更
+// 把 roots 及其子实体加入快照，已有的不覆盖，也不影响其他还未保存的变更，失败时快照不变
 func (e *Stage) updateSnapshot(roots ...IEntity) error {
 	if e.snapshot[e.meta] == nil {
 		e.snapshot[e.meta] = &entitySnapshot{children: map[string][]IEntity{}}
 	}
-	loaded := e.snapshot[e.meta].children
+	loaded := entitySnapshotPool{}
 	for _, root := range roots {
 		if err := walk(root, e.meta, func(entity, parent IEntity, children map[string][]IEntity) error {
 			if _, in := e.snapshot[entity]; in {
 				return nil
 			}
+			if _, in := loaded[entity]; in {
+				return nil
+			}
 
 			po, err := e.executor.Entity2Model(entity, parent, OpQuery)
 			if err != nil && !errors.Is(err, ErrEntityNotRegister) {
 				return err
 			}
-			e.snapshot[entity] = &entitySnapshot{
+			loaded[entity] = &entitySnapshot{
 				po:       po,
 				children: childrenSnapshot(children),
 			}
@@ -880,8 +900,13 @@ func (e *Stage) updateSnapshot(roots ...IEntity) error {
 		}); err != nil {
 			return err
 		}
-		loaded["meta"] = append(loaded["meta"], root)
 	}
+
+	for entity, snapshot := range loaded {
+		e.snapshot[entity] = snapshot
+	}
+	rootsLoaded := e.snapshot[e.meta].children
+	rootsLoaded["meta"] = append(rootsLoaded["meta"], roots...)
 	return nil
 }
 
-- 
2.43.0


From ea3b08eae1144337da0b450ee7b12e72774b148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 29/30] fix: loading into a nil or mistyped destination returns
 an error instead of panicking

---
 engine.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index e0101d8..38e8a77 100644
--- a/engine.go
+++ b/engine.go
@@ -674,8 +674,8 @@ func (e *Stage) BuildEntity(ctx context.Context, parent IEntity, children ...int
 	for _, item := range children {
 		itemType := reflect.TypeOf(item)
 		itemVal := reflect.ValueOf(item)
-		if itemType.Kind() != reflect.Ptr {
-			return fmt.Errorf("children must be pointer")
+		if itemType == nil || itemType.Kind() != reflect.Ptr || itemVal.IsNil() {
+			return fmt.Errorf("children must be pointer and not nil")
 		}
 		if itemType.Elem().Kind() == reflect.Slice {
 			if err := e.buildEntitySliceByParent(ctx, parent, item); err != nil {
@@ -737,13 +737,11 @@ func (e *Stage) buildEntitySliceByParent(ctx context.Context, parent IEntity, ch
 		return fmt.Errorf("children must be pointer of slice")
 	}
 	eType := childrenType.Elem().Elem()
-	if !eType.Implements(entityType) {
-		return fmt.Errorf("element of children must implement IEntity")
+	if eType.Kind() != reflect.Ptr || !eType.Implements(entityType) {
+		return fmt.Errorf("element of children must be a pointer that implements IEntity")
 	}
 
-	if eType.Kind() == reflect.Ptr {
-		eType = eType.Elem()
-	}
+	eType = eType.Elem()
 	entity := reflect.New(eType)
 	po, err := e.executor.Entity2Model(entity.Interface().(IEntity), parent, OpQuery)
 	if err != nil {
-- 
2.43.0


From f1235679485f9f0f4f4c12e4e8d850fd56daf8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 30/30] fix: an entity embedding a struct with *BaseEntity by
 value made every save panic

---
 snapshot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index c7923e7..9bc817e 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -161,7 +161,9 @@ func findChildren(entity IEntity) map[string][]IEntity {
 		if !fieldVal.CanInterface() {
 			continue
 		}
-		if fieldType.Implements(entityType) && fieldType != baseEntityType {
+		// 以值的形式嵌入的公共结构（内嵌 *BaseEntity）也会实现 IEntity，但不是子实体
+		nilable := fieldType.Kind() == reflect.Ptr || fieldType.Kind() == reflect.Interface
+		if nilable && fieldType.Implements(entityType) && fieldType != baseEntityType {
 			if fieldVal.IsNil() {
 				children[fieldName] = []IEntity{}
 			} else {
-- 
2.43.0

