package eng

import (
	"math/rand"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/utils/hook"

	"verif/harness/h"
)

// Points are the observation points of the engine.
var Points = []string{"core.add.partitioned", "core.add.beforeTable", "core.remove.marked",
	"indexer.add", "indexer.remove", "indexer.lookup", "ranker.add", "ranker.rank",
	"ranker.remove", "core.add.begin", "core.remove.begin", "core.ranker.add", "core.ranker.remove",
	"store.write", "store.set", "store.delete", "segmenter", "segmenter.indexed", "flush.settled"}

var (
	delayMode  int32 // 0 none, 1 yields, 2 short sleeps, 3 one slow point
	delayPoint atomic.Value
	delayRnd   uint64
	// PointHits counts the calls of all points.
	PointHits int64
	delayUs   int64 = 300
)

func xorshift() uint64 {
	for {
		o := atomic.LoadUint64(&delayRnd)
		x := o
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		if atomic.CompareAndSwapUint64(&delayRnd, o, x) {
			return x
		}
	}
}

func point(name string) {
	atomic.AddInt64(&PointHits, 1)
	h.Progress()
	switch atomic.LoadInt32(&delayMode) {
	case 1:
		if xorshift()%2 == 0 {
			runtime.Gosched()
		}
	case 2:
		if x := xorshift(); x%8 == 0 {
			time.Sleep(time.Duration(1+x/8%uint64(delayUs)) * time.Microsecond)
		}
	case 3:
		if p, _ := delayPoint.Load().(string); p == name {
			time.Sleep(time.Duration(delayUs) * time.Microsecond)
		}
	case 4:
		if p, _ := delayPoint.Load().(string); p == name && xorshift()%4 == 0 {
			time.Sleep(time.Duration(delayUs*5) * time.Microsecond)
		}
	case 5:
		if p, _ := delayPoint.Load().(string); p == name && xorshift()%4 == 0 {
			time.Sleep(8 * time.Millisecond)
		}
	}
}

// DelayLong holds every fourth passage of the point for eight milliseconds.
func DelayLong(r *rand.Rand, point1 string) string {
	atomic.StoreUint64(&delayRnd, uint64(r.Int63())|1)
	delayPoint.Store(point1)
	hook.Set(point)
	atomic.StoreInt32(&delayMode, 5)
	return "sometimes 8 ms " + point1
}

// DelaysAt is Delays with the slow point among the given ones.
func DelaysAt(r *rand.Rand, points ...string) string {
	atomic.StoreUint64(&delayRnd, uint64(r.Int63())|1)
	p := points[r.Intn(len(points))]
	delayPoint.Store(p)
	m := int32(r.Intn(5))
	hook.Set(point)
	atomic.StoreInt32(&delayMode, m)
	return []string{"none", "yield", "jitter", "slow " + p, "sometimes very slow " + p}[m]
}

// Delays turns the injection of scheduling delays on for a case and names it.
func Delays(r *rand.Rand) string {
	atomic.StoreUint64(&delayRnd, uint64(r.Int63())|1)
	p := Points[r.Intn(len(Points))]
	delayPoint.Store(p)
	m := int32(r.Intn(5))
	hook.Set(point)
	atomic.StoreInt32(&delayMode, m)
	switch m {
	case 1:
		return "yield"
	case 2:
		return "jitter"
	case 3:
		return "slow " + p
	case 4:
		return "sometimes very slow " + p
	}
	return "none"
}

// NoDelays turns it off, keeping the progress report of the points.
func NoDelays() {
	atomic.StoreInt32(&delayMode, 0)
	hook.Set(point)
}

// slowStore is a real store whose writes are observation points too.
type slowStore struct{ store.Store }

func (s slowStore) Set(k, v []byte) error {
	point("store.set")
	return s.Store.Set(k, v)
}

func (s slowStore) Delete(k []byte) error {
	point("store.delete")
	return s.Store.Delete(k)
}

// SlowStore gives the name under which the backend is registered with
// observation points in front of its writes.
func SlowStore(backend string) string { return "slow-" + backend }

func init() {
	for _, n := range []string{"ldb", "bg", "bolt"} {
		n := n
		store.RegisterStore(SlowStore(n), func(path string) (store.Store, error) {
			st, err := store.OpenStore(path, n)
			return slowStore{st}, err
		})
	}
}
