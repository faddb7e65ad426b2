package main

import (
	"errors"
	"io"
	"sync"

	"github.com/pojntfx/stfs/pkg/config"
)

// EmuTape emulates a tape drive in variable block mode, as the Linux st driver presents it: writes create one block each, reads return
// (at most) one block and fail if the buffer is too small, closing after writing writes a file mark, blocks and file marks are numbered.
type EmuTape struct {
	mu        sync.Mutex
	lock      sync.Mutex // one open at a time, as the drive manager guarantees
	blockSize int
	objs      [][]byte // nil: file mark
	pos       int
	hitFM     bool
	open      bool
	wrote     bool
	Odd       int // blocks which were not exactly one record long
}

var errNoMem = errors.New("cannot allocate memory: block larger than buffer")
var errIO = errors.New("input/output error")

func NewEmuTape(blockSize int) *EmuTape { return &EmuTape{blockSize: blockSize} }

// Stream is the concatenation of all blocks, for prefix comparisons and marker searches.
func (t *EmuTape) Stream() []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	out := []byte{}
	for _, o := range t.objs {
		out = append(out, o...)
	}
	return out
}

func (t *EmuTape) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if len(p) != t.blockSize {
		t.Odd++
	}
	t.objs = append(t.objs[:t.pos:t.pos], append([]byte{}, p...))
	t.pos++
	t.wrote = true
	return len(p), nil
}

func (t *EmuTape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if t.hitFM {
		// Reading on after a file mark has been hit moves on to the next file
		t.hitFM = false
	}
	if t.pos >= len(t.objs) {
		return 0, io.EOF
	}
	o := t.objs[t.pos]
	if o == nil {
		t.pos++
		t.hitFM = true
		return 0, io.EOF
	}
	if len(o) > len(p) {
		t.pos++
		return 0, errNoMem
	}
	t.pos++
	return copy(p, o), nil
}

func (t *EmuTape) Seek(int64, int) (int64, error) { return 0, errors.New("illegal seek") }
func (t *EmuTape) Fd() uintptr                    { return 42 }

func (t *EmuTape) Backend(overwrite bool) config.BackendConfig {
	closer := func() error {
		t.mu.Lock()
		if !t.open {
			t.mu.Unlock()
			return nil
		}
		if t.wrote {
			t.objs = append(t.objs[:t.pos:t.pos], nil)
			t.pos++
			t.wrote = false
		}
		t.hitFM = false
		t.open = false
		t.mu.Unlock()
		t.lock.Unlock()
		return nil
	}
	return config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			t.lock.Lock()
			t.mu.Lock()
			defer t.mu.Unlock()
			t.open, t.wrote, t.hitFM = true, false, false
			t.pos = len(t.objs)
			if overwrite {
				t.pos, overwrite = 0, false
			}
			return config.DriveWriterConfig{Drive: struct{ io.Writer }{t}, DriveIsRegular: false}, nil
		},
		CloseWriter: closer,
		GetReader: func() (config.DriveReaderConfig, error) {
			t.lock.Lock()
			t.mu.Lock()
			defer t.mu.Unlock()
			t.open, t.wrote, t.hitFM = true, false, false
			return config.DriveReaderConfig{Drive: t, DriveIsRegular: false}, nil
		},
		CloseReader:    closer,
		MagneticTapeIO: emuMT{t},
	}
}

type emuMT struct{ t *EmuTape }

func (m emuMT) GetCurrentRecordFromTape(fd uintptr) (int64, error) {
	m.t.mu.Lock()
	defer m.t.mu.Unlock()
	return int64(m.t.pos), nil
}

func (m emuMT) GoToEndOfTape(fd uintptr) error {
	m.t.mu.Lock()
	defer m.t.mu.Unlock()
	m.t.pos = len(m.t.objs)
	m.t.hitFM = false
	return nil
}

func (m emuMT) GoToNextFileOnTape(fd uintptr) error {
	t := m.t
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.hitFM {
		// The drive is already behind the file mark
		t.hitFM = false
		if t.pos >= len(t.objs) {
			return errIO
		}
		return nil
	}
	for t.pos < len(t.objs) {
		o := t.objs[t.pos]
		t.pos++
		if o == nil {
			if t.pos >= len(t.objs) {
				return errIO
			}
			return nil
		}
	}
	return errIO
}

func (m emuMT) EjectTape(fd uintptr) error { return nil }

func (m emuMT) SeekToRecordOnTape(fd uintptr, record int32) error {
	t := m.t
	t.mu.Lock()
	defer t.mu.Unlock()
	if int(record) > len(t.objs) || record < 0 {
		return errIO
	}
	t.pos = int(record)
	t.hitFM = false
	return nil
}
