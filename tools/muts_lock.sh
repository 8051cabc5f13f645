m() { echo "--- $1"; shift; timeout 300 bash /tmp/mut.sh "$@" 2>&1 | grep -E 'VIOL|TAINT|build|rror' | cut -c1-220 | head -4; }
f=lock/db/sql.go
m nohold $f '		Where("locker_id = ?", lock.LockerID).
' '' -q -scen dblock
m lt $f 'time.Since(lock.UpdatedAt) < r.ttl' 'time.Since(lock.CreatedAt) < r.ttl' -q -scen dblock
m inv $f 'if res.RowsAffected == 0 {
		// resource updated by others
		return nil, dddfirework.ErrEntityLocked
	}
' '' -q -scen dblock
m noid $f 'UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})

	if' 'UpdateColumns(ResourceLock{UpdatedAt: time.Now()})

	if' -q -scen dblock
m oldid $f 'lock.LockerID = lockerID
' '' -q -scen dblock
m dup $f 'if errors.Is(err, gorm.ErrDuplicatedKey) {
				return nil, dddfirework.ErrEntityLocked
			}' '' -q -scen dblock
m retryall $f 'return err == dddfirework.ErrEntityLocked' 'return err != nil' -q -scen dblock
m unlockid $f 'Where("locker_id = ? and resource = ?", l.LockerID, l.Resource)' 'Where("resource = ?", l.Resource)' -q -scen db
m unlockor $f 'locker_id = ? and resource' 'locker_id = ? or resource' -q -scen db
m rows $f 'if res.RowsAffected <= 0 { // should' 'if res.RowsAffected < 0 { // should' -q -scen db
m renewid $f 'Where("`resource` = ? AND `locker_id` = ?", l.Resource, l.LockerID)' 'Where("`resource` = ?", l.Resource)' -q -scen db
m renewrows $f 'if res.RowsAffected == 0 {
		return fmt.Errorf("resource %s updated' 'if false {
		return fmt.Errorf("resource %s updated' -q -scen db
m nocancel $f '					cancel()
' '' -q -scen db
m subctx $f 'if err = r.UnLock(ctx, locker); err != nil {
			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
		}
	}() // pass parent ctx in here, or defer will use sub ctx below
' 'if err = r.UnLock(ctx, locker); err != nil {
			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
		}
	}()
	ctx, cc := context.WithCancel(ctx)
	defer cc()
' -q -scen db
m race $f 'if err := r.update(ctx, locker)' 'if err = r.update(ctx, locker)' -q -scen db
m nodefer $f '	defer cancel()
' '' -q -scen db
m fnctx $f '	fn(subCtx)' '	fn(ctx)' -q -scen db
m undefer $f '	defer func() {
		if err = r.UnLock(ctx, locker); err != nil {
			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
		}
	}() // pass parent ctx in here, or defer will use sub ctx below' '	defer r.logger.Info("x"); _ = locker' -q -scen db
m once $f '			case <-ticker.C:
				if err := r.update' '			case <-ticker.C:
				return
				if err := r.update' -q -scen db
g=lock/redis/redis.go
m r1 $g 'err == redislock.ErrNotObtained' 'err != nil' -q -scen redis
m r2 $g 'Obtain(ctx, key' 'Obtain(context.Background(), key' -q -scen redis
m r3 $g 'l.Release(ctx)' 'l.Release(context.TODO())' -q -scen redis
m r4 $g '; err == redislock.ErrNotObtained {
		return nil, dddfirework.ErrEntityLocked
	}' '; err == redislock.ErrLockNotHeld {
		return nil, dddfirework.ErrEntityLocked
	}' -q -scen redis
