package index

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/kit"
)

// Closing is a number of indexes that are closed around the time at which their
// caches are cleaned up, while they are searched.
type Closing struct {
	Conf Conf    `json:"conf"`
	Each []Close `json:"each"`
}

// Close says when and how an index is closed.
type Close struct {
	Off    int  `json:"off"` // microseconds after the clean up is due
	Drop   bool `json:"drop"`
	Search bool `json:"search"` // until it is closed
}

// TestP29_close: closing an index returns, whatever the index is busy with.
func TestP29_close(t *testing.T) {
	kit.Run(t, kit.Prop[Closing]{
		ID: "P29", Sub: "close", Quick: 16, Thorough: 400, Timeout: 240e9,
		Rule: "indexes were closed within two milliseconds of the clean up of their caches",
		Gen: func(t *rapid.T) Closing {
			c := Closing{Conf: genConf(t, false)}
			c.Conf.CacheMax = rapid.SampledFrom([]int{0, 1, 2, 1000000}).Draw(t, "cache")
			for n := kit.Uniform(t, 30, 60, "n"); n > 0; n-- {
				c.Each = append(c.Each, Close{Off: kit.Uniform(t, -300, 1500, "off"), Drop: rapid.Bool().Draw(t, "drop"), Search: rapid.IntRange(0, 3).Draw(t, "search") == 0})
			}
			return c
		},
		Check: func(ctx *kit.Ctx, c Closing) error {
			// nothing is flushed: they can share a table
			kv, name, _ := table()
			errs := make([]error, len(c.Each))
			var wg sync.WaitGroup
			for i, e := range c.Each {
				began := time.Now()
				ix := c.Conf.open(kv, name)
				made := time.Since(began)
				for j := 0; j < 3; j++ {
					if err := ix.Add(uint64(j), []float32{float32(j + 1), 1}); err != nil {
						return fmt.Errorf("add: %v", err)
					}
				}
				wg.Add(1)
				go func(i int, e Close) {
					defer wg.Done()
					stop := make(chan struct{})
					var asking sync.WaitGroup
					if e.Search {
						asking.Add(1)
						go func() {
							defer asking.Done()
							for {
								if ids, _, err := ix.KnnSearchByVectorMaxDist([]float32{1, 1}, 1e30, 5, nil); err != nil || len(ids) != 3 {
									errs[i] = fmt.Errorf("index %d: a search found %v, error %v", i, ids, err)
									return
								}
								select {
								case <-stop:
									return
								case <-time.After(time.Millisecond):
								}
							}
						}()
					}
					time.Sleep(time.Until(began.Add(made/2 + 3*time.Second + time.Duration(e.Off)*time.Microsecond)))
					close(stop)
					asking.Wait()
					closed := make(chan error, 1)
					go func() {
						err, _ := kit.Try(func() error {
							if e.Drop {
								return ix.Drop(context.Background())
							}
							return ix.Shutdown(context.Background())
						})
						closed <- err
					}()
					select {
					case err := <-closed:
						if err != nil && errs[i] == nil {
							errs[i] = fmt.Errorf("index %d: closing: %v", i, err)
						}
					case <-time.After(40 * time.Second):
						errs[i] = fmt.Errorf("index %d: closing it (%+v) did not return within 40 s", i, e)
					}
				}(i, e)
			}
			wg.Wait()
			ctx.NonTrivial()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			return nil
		},
	})
}
