// Package simdisk is the simulated disk under bolt: files with a volatile
// image (what the processes see), a durable image (what survives a power
// failure) and the writes in between, advisory locks, memory maps, and faults.
package simdisk

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	"verifsim/simrt"
)

const sector = 512

type write struct {
	off   int64
	data  []byte
	trunc int64 // -1 when a data write
}

type inode struct {
	path     string
	cur      []byte
	durable  []byte
	pending  []write
	maps     []*region
	lockers  map[*File]bool // holders; value: exclusive
	metaLast bool           // the last write since the last sync went to the head of the file
}

type region struct {
	mem  []byte
	file *File
}

// Faults decides what goes wrong.
type Faults struct {
	WriteErr  int // per mille of data writes: EIO
	ShortErr  int // per mille: part is written, then ENOSPC
	SyncErr   int // per mille of syncs of data: EIO
	TruncErr  int
	ReadErr   int // per mille of reads at open
	DiskLimit int64
	CrashOp   int // per mille of disk operations: the node crashes there
	// OnCrash is called when a crash is drawn; it must crash the node.
	OnCrash func(n *simrt.Node)
	Active  bool
}

// FS is the disk of a run.
type FS struct {
	K     *simrt.Kernel
	files map[string]*inode
	F     Faults
	page  int
	Count map[string]int64
	Ops   int64
	// OnOp is told of every effect on a file, for checks of who still writes.
	OnOp func(node *simrt.Node, op, path string)
	// Used is told of the file object of each operation.
	handles []*File
}

var fs *FS

// Mount installs the disk of a run.
func Mount(k *simrt.Kernel, pageSize int) *FS {
	fs = &FS{K: k, files: map[string]*inode{}, page: pageSize, Count: map[string]int64{}}
	return fs
}

// PageSize is the page size new files get.
func PageSize() int { return fs.page }

// File is an open file.
type File struct {
	ino    *inode
	node   *simrt.Node
	closed bool
	Name   string
}

var errClosed = errors.New("file already closed")

func (f *FS) fault(kind string) { f.Count[kind]++; f.K.Tracef("disk fault: %s", kind) }

func (f *FS) step(h *File, op string) {
	f.Ops++
	f.K.Yield("disk " + op)
	f.K.ExitIfDead()
	if f.OnOp != nil && h != nil {
		f.OnOp(h.node, op, h.ino.path)
	}
	if f.F.Active && f.F.CrashOp > 0 {
		t := simrt.Self()
		if t != nil && !t.Exiting() && !t.Zombie && f.K.Ch.Chance(f.F.CrashOp, "crash") {
			f.F.OnCrash(t.Node)
			f.K.ExitIfDead()
		}
	}
}

func dead() bool {
	t := simrt.Self()
	return t != nil && (t.Exiting() || t.Zombie && t.Node != nil && t.Node.Dead)
}

// OpenFile opens or creates a file.
func OpenFile(path string, flag int, mode os.FileMode) (*File, error) {
	if dead() {
		return nil, syscall.EIO
	}
	fs.step(nil, "open "+path)
	ino := fs.files[path]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, &os.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
		}
		ino = &inode{path: path, lockers: map[*File]bool{}}
		fs.files[path] = ino
	}
	h := &File{ino: ino, node: simrt.Self().Node, Name: path}
	fs.handles = append(fs.handles, h)
	if flag&os.O_TRUNC != 0 {
		h.Truncate(0)
	}
	return h, nil
}

// Flock takes the lock, polling as bolt does, until the timeout.
func (h *File) Flock(exclusive bool, timeout time.Duration) bool {
	free := func() bool {
		for _, ex := range h.ino.lockers {
			if ex || exclusive {
				return false
			}
		}
		return true
	}
	if dead() {
		return false
	}
	if !free() {
		fs.K.Probe("disk.lockwait")
		var dl time.Time
		if timeout > 0 {
			dl = time.Now().Add(timeout)
		}
		if !fs.K.WaitUntil("flock", free, dl) {
			return false
		}
	}
	h.ino.lockers[h] = exclusive
	return true
}

// Funlock drops the lock.
func (h *File) Funlock() error {
	delete(h.ino.lockers, h)
	return nil
}

type info struct{ size int64 }

func (i info) Name() string       { return "" }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return 0600 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

// Stat returns the size.
func (h *File) Stat() (os.FileInfo, error) {
	if h.closed {
		return nil, errClosed
	}
	return info{int64(len(h.ino.cur))}, nil
}

// ReadAt reads.
func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if h.closed {
		return 0, errClosed
	}
	if off >= int64(len(h.ino.cur)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.cur[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (ino *inode) apply(off int64, b []byte) {
	end := off + int64(len(b))
	if end > int64(len(ino.cur)) {
		ino.cur = append(ino.cur, make([]byte, end-int64(len(ino.cur)))...)
	}
	copy(ino.cur[off:], b)
	for _, r := range ino.maps {
		if off < int64(len(r.mem)) {
			copy(r.mem[off:], b)
		}
	}
}

// WriteAt writes to the volatile image.
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if dead() {
		return 0, syscall.EIO
	}
	if h.closed {
		return 0, errClosed
	}
	fs.step(h, "write")
	meta := off < int64(2*fs.page)
	f := &fs.F
	init := len(h.ino.durable) == 0 && off == 0
	if f.Active && !meta && !init {
		if f.WriteErr > 0 && fs.K.Ch.Chance(f.WriteErr, "eio") {
			fs.fault("disk.write.EIO")
			return 0, syscall.EIO
		}
		if f.ShortErr > 0 && fs.K.Ch.Chance(f.ShortErr, "short") {
			n := fs.K.Ch.Choose(len(b)/sector+1, "shortlen") * sector
			if n > len(b) {
				n = len(b)
			}
			fs.fault("disk.write.short+ENOSPC")
			h.ino.record(off, b[:n])
			return n, syscall.ENOSPC
		}
	}
	h.ino.metaLast = meta
	h.ino.record(off, b)
	if init { // creating a database file is not atomic in bolt itself: outside the properties
		h.ino.sync()
	}
	return len(b), nil
}

func (ino *inode) record(off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	c := append([]byte(nil), b...)
	ino.pending = append(ino.pending, write{off: off, data: c, trunc: -1})
	ino.apply(off, c)
}

// Truncate changes the size.
func (h *File) Truncate(n int64) error {
	if dead() {
		return syscall.EIO
	}
	if h.closed {
		return errClosed
	}
	fs.step(h, "truncate")
	f := &fs.F
	if f.Active && f.TruncErr > 0 && fs.K.Ch.Chance(f.TruncErr, "truncerr") {
		fs.fault("disk.truncate.ENOSPC")
		return syscall.ENOSPC
	}
	h.ino.pending = append(h.ino.pending, write{trunc: n})
	h.ino.resize(n)
	return nil
}

func (ino *inode) resize(n int64) {
	if n <= int64(len(ino.cur)) {
		ino.cur = ino.cur[:n]
	} else {
		ino.cur = append(ino.cur, make([]byte, n-int64(len(ino.cur)))...)
	}
}

func (ino *inode) sync() {
	ino.durable = append(ino.durable[:0:0], ino.cur...)
	ino.pending = nil
	ino.metaLast = false
}

// Sync makes everything written durable.
func (h *File) Sync() error {
	if dead() {
		return syscall.EIO
	}
	if h.closed {
		return errClosed
	}
	fs.step(h, "sync")
	f := &fs.F
	if f.Active && !h.ino.metaLast && f.SyncErr > 0 && fs.K.Ch.Chance(f.SyncErr, "syncerr") {
		fs.fault("disk.sync.EIO")
		return syscall.EIO
	}
	h.ino.sync()
	fs.step(h, "synced")
	return nil
}

// Close closes the file and drops its lock.
func (h *File) Close() error {
	if h.closed {
		return errClosed
	}
	if !dead() {
		fs.step(h, "close")
	}
	h.closed = true
	delete(h.ino.lockers, h)
	return nil
}

// Seek and Read exist for bolt's backup code only.
func (h *File) Seek(off int64, whence int) (int64, error) { return 0, errors.New("simdisk: no seek") }
func (h *File) Read(b []byte) (int, error)                { return 0, errors.New("simdisk: no read") }
func (h *File) Write(b []byte) (int, error)               { return 0, errors.New("simdisk: no write") }

// Mmap maps the file; the memory follows later writes.
func (h *File) Mmap(sz int) ([]byte, error) {
	if h.closed {
		return nil, errClosed
	}
	mem := make([]byte, sz)
	copy(mem, h.ino.cur)
	h.ino.maps = append(h.ino.maps, &region{mem, h})
	return mem, nil
}

// Munmap poisons the memory: whoever still holds a slice of it sees garbage.
func (h *File) Munmap(b []byte) error {
	for i, r := range h.ino.maps {
		if &r.mem[0] == &b[0] {
			h.ino.maps = append(h.ino.maps[:i:i], h.ino.maps[i+1:]...)
			break
		}
	}
	for i := range b {
		b[i] = 0xDB
	}
	return nil
}

// NodeCrashed drops what the dead process held.  With power lost, the writes
// that were not synced persist in part: each one wholly, torn at a sector
// boundary, or not at all.
func (f *FS) NodeCrashed(n *simrt.Node, powerLoss bool) {
	for _, h := range f.handles {
		if h.node != n || h.closed {
			continue
		}
		h.closed = true
		ino := h.ino
		delete(ino.lockers, h)
		for i := len(ino.maps) - 1; i >= 0; i-- {
			if ino.maps[i].file == h {
				ino.maps = append(ino.maps[:i:i], ino.maps[i+1:]...)
			}
		}
		if powerLoss {
			f.powerLoss(ino)
		} else {
			// The kernel writes back what the process left behind before the power
			// can fail: bolt itself does not survive the loss of a meta page which
			// an earlier process wrote but did not live to sync, once a later
			// process has built on it.  That is outside the properties.
			ino.sync()
		}
	}
}

func (f *FS) powerLoss(ino *inode) {
	img := &inode{cur: append([]byte(nil), ino.durable...)}
	ch := f.K.Ch
	if len(ino.pending) > 0 {
		f.Count["disk.crash.unsynced"]++
	}
	mode := ch.Choose(3, "lossmode") // 0: everything unsynced lost, 1: arbitrary subset, 2: prefix
	cut := 0
	if mode == 2 {
		cut = ch.Choose(len(ino.pending)+1, "losscut")
	}
	for i, w := range ino.pending {
		switch mode {
		case 0:
			continue
		case 2:
			if i > cut {
				continue
			}
		}
		v := 1
		if mode == 1 {
			v = ch.Choose(3, "loss") // 0 lost, 1 kept, 2 torn
		} else if i == cut {
			v = 2
		}
		switch {
		case v == 0:
			f.Count["disk.crash.lostwrite"]++
		case w.trunc >= 0:
			img.resize(w.trunc)
		case v == 2:
			// arbitrary sectors of the write reach the platter
			kept := 0
			for s := 0; s < len(w.data); s += sector {
				e := s + sector
				if e > len(w.data) {
					e = len(w.data)
				}
				if ch.Choose(2, "sector") == 1 {
					img.apply(w.off+int64(s), w.data[s:e])
					kept++
				}
			}
			if kept > 0 && kept*sector < len(w.data) {
				f.Count["disk.crash.tornwrite"]++
			}
		default:
			img.apply(w.off, w.data)
		}
	}
	ino.cur = img.cur
	ino.durable = append([]byte(nil), img.cur...)
	ino.pending = nil
	ino.metaLast = false
}

// Locked reports whether some process holds the file's lock.
func (f *FS) Locked(path string) bool {
	ino := f.files[path]
	return ino != nil && len(ino.lockers) > 0
}

// Snapshot returns the bytes of a file.
func (f *FS) Snapshot(path string) ([]byte, error) {
	ino := f.files[path]
	if ino == nil {
		return nil, fmt.Errorf("simdisk: no file %s", path)
	}
	return append([]byte(nil), ino.cur...), nil
}

// Size returns the size of a file.
func (f *FS) Size(path string) int {
	if ino := f.files[path]; ino != nil {
		return len(ino.cur)
	}
	return -1
}
