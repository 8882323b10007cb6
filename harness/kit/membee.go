package kit

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethersphere/bee/pkg/soc"
	"github.com/ethersphere/bee/pkg/swarm"
)

// MemBee is an in-memory stand-in for a Swarm node: content-addressed blobs
// and chunks plus single-owner chunks. It implements the block-store interface
// the fairOS-dfs library talks to, and can be told to fail uploads.
type MemBee struct {
	mu      sync.RWMutex
	blobs   map[string][]byte
	chunks  map[string][]byte
	uploads int64

	// FailAfter, when >= 0, makes every upload after that many more uploads
	// fail (the node becomes unreachable for writes).
	failAfter int64
	failCount int64 // how many uploads fail once the fault starts (<0: all)
	failed    int64

	// the same for reads of content
	readAfter, readCount, readFailed int64

	jitter atomic.Uint64 // 0: none
}

// Jitter makes the calls take their time, differently long ones, so that
// concurrent callers interleave in many ways.
func (m *MemBee) Jitter(seed uint64) { m.jitter.Store(seed) }

func (m *MemBee) pause() {
	s := m.jitter.Load()
	if s == 0 {
		return
	}
	s ^= s << 13
	s ^= s >> 7
	s ^= s << 17
	if s == 0 {
		s = 1
	}
	m.jitter.Store(s)
	switch s >> 32 % 16 {
	case 0:
		time.Sleep(time.Duration(s>>40%400) * time.Microsecond)
	case 1, 2, 3, 4:
		runtime.Gosched()
	}
}

// NewMemBee returns an empty node.
func NewMemBee() *MemBee {
	return &MemBee{blobs: map[string][]byte{}, chunks: map[string][]byte{}, failAfter: -1, readAfter: -1}
}

var errInjected = errors.New("injected storage failure")

// SetFault arms the fault: the uploads number after..after+count-1 from now on
// fail. count<0: all of them.
func (m *MemBee) SetFault(after, count int64) {
	m.mu.Lock()
	m.failAfter, m.failCount, m.failed = after, count, 0
	m.mu.Unlock()
}

// ClearFault disarms it and tells how many uploads failed.
func (m *MemBee) ClearFault() int64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.failAfter = -1
	return m.failed
}

// SetReadFault arms a fault of reading content: the reads number
// after..after+count-1 from now on fail. count<0: all of them. Reads of feeds
// do not fail: a feed whose chunk cannot be read is by design one without it.
func (m *MemBee) SetReadFault(after, count int64) {
	m.mu.Lock()
	m.readAfter, m.readCount, m.readFailed = after, count, 0
	m.mu.Unlock()
}

// ClearReadFault disarms it and tells how many reads failed.
func (m *MemBee) ClearReadFault() int64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.readAfter = -1
	return m.readFailed
}

func (m *MemBee) readGate() error {
	if m.readAfter < 0 {
		return nil
	}
	if m.readAfter > 0 {
		m.readAfter--
		return nil
	}
	if m.readCount < 0 || m.readFailed < m.readCount {
		m.readFailed++
		return errInjected
	}
	return nil
}

// Uploads is the number of uploads so far.
func (m *MemBee) Uploads() int64 { m.mu.RLock(); defer m.mu.RUnlock(); return m.uploads }

func (m *MemBee) gate() error {
	m.uploads++
	if m.failAfter < 0 {
		return nil
	}
	if m.failAfter > 0 {
		m.failAfter--
		return nil
	}
	if m.failCount < 0 || m.failed < m.failCount {
		m.failed++
		return errInjected
	}
	return nil
}

func (m *MemBee) CheckConnection() bool { return true }

func (m *MemBee) UploadSOC(owner, id, signature string, data []byte) ([]byte, error) {
	m.pause()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.uploads++
	ob, err := hex.DecodeString(owner)
	if err != nil {
		return nil, err
	}
	ib, err := hex.DecodeString(id)
	if err != nil {
		return nil, err
	}
	sb, err := hex.DecodeString(signature)
	if err != nil {
		return nil, err
	}
	addr, err := soc.CreateAddress(ib, ob)
	if err != nil {
		return nil, err
	}
	var full []byte
	full = append(full, ib...)
	full = append(full, sb...)
	full = append(full, data...)
	m.chunks[addr.ByteString()] = full
	feedClock.t.Add(1)
	return addr.Bytes(), nil
}

func (m *MemBee) UploadChunk(ch swarm.Chunk) ([]byte, error) {
	m.pause()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.uploads++
	m.chunks[ch.Address().ByteString()] = append([]byte(nil), ch.Data()...)
	return ch.Address().Bytes(), nil
}

func (m *MemBee) UploadBlob(data []byte, _ uint32, encrypt bool) ([]byte, error) {
	m.pause()
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.gate(); err != nil {
		return nil, err
	}
	h := sha256.Sum256(data)
	ref := h[:]
	if encrypt {
		k := sha256.Sum256(ref)
		ref = append(append([]byte(nil), ref...), k[:]...)
	}
	m.blobs[string(ref)] = append([]byte(nil), data...)
	return append([]byte(nil), ref...), nil
}

func (m *MemBee) UploadBzz(data []byte, _ string) ([]byte, error) {
	return m.UploadBlob(data, 0, false)
}

func (m *MemBee) DownloadChunk(_ context.Context, address []byte) ([]byte, error) {
	m.pause()
	m.mu.RLock()
	defer m.mu.RUnlock()
	d, ok := m.chunks[string(address)]
	if !ok {
		return nil, errors.New("error downloading data")
	}
	return append([]byte(nil), d...), nil
}

func (m *MemBee) DownloadBlob(address []byte) ([]byte, int, error) {
	m.pause()
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.readGate(); err != nil {
		return nil, http.StatusInternalServerError, err
	}
	d, ok := m.blobs[string(address)]
	if !ok {
		return nil, http.StatusNotFound, errors.New("error downloading blob ")
	}
	return append([]byte(nil), d...), http.StatusOK, nil
}

func (m *MemBee) DownloadBzz(address []byte) ([]byte, int, error) { return m.DownloadBlob(address) }
func (m *MemBee) DeleteReference([]byte) error                    { return nil }
func (m *MemBee) CreateTag([]byte) (uint32, error)                { return 1, nil }
func (m *MemBee) GetTag(uint32) (int64, int64, int64, error)      { return 0, 0, 0, nil }
