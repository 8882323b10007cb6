package kit

import (
	"sync/atomic"
	"time"

	"github.com/fairdatasociety/fairOS-dfs/pkg/feed"
	"github.com/fairdatasociety/fairOS-dfs/pkg/feed/lookup"
)

// clock is the time of the feeds: it advances with every stored feed update
// and with nothing else (see dep_overlay in check.py).
type clock struct{ t atomic.Uint64 }

func (c *clock) Now() feed.Timestamp { return feed.Timestamp{Time: c.t.Load()} }

var feedClock = &clock{}

func init() {
	feedClock.t.Store(1700000000)
	feed.TimestampProvider = feedClock
	// the stand-in node answers at once, so looking elsewhere before it has
	// answered is never needed
	lookup.TimeAfter = func(time.Duration) <-chan time.Time { return nil }
}
