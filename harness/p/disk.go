package p

import (
	"io"
	"os"

	"verif/harness/ofxcli"
	"verif/harness/v"
)

// disk is the stand-in for the file system.
type disk struct {
	files map[string]*data
	names []string // opened for writing
	// what goes wrong
	openErr, closeErr, syncErr, renameErr error
	room                                  int // bytes which can be written; -1: any number
	frozen                                bool
}

type data struct{ b []byte }

type handle struct {
	d      *disk
	f      *data
	at     int
	app    bool
	closed bool
}

func (h *handle) Read(p []byte) (int, error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	if h.at >= len(h.f.b) {
		return 0, io.EOF
	}
	n := copy(p, h.f.b[h.at:])
	h.at += n
	return n, nil
}

func (h *handle) Write(p []byte) (n int, err error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	if h.d.frozen {
		return len(p), nil
	}
	if h.d.room >= 0 && len(p) > h.d.room {
		p = p[:h.d.room]
		err = anyFault()
	}
	if h.d.room >= 0 {
		h.d.room -= len(p)
	}
	if h.app {
		h.at = len(h.f.b)
	}
	for len(h.f.b) < h.at {
		h.f.b = append(h.f.b, 0)
	}
	n = copy(h.f.b[h.at:], p)
	h.f.b = append(h.f.b, p[n:]...)
	h.at += len(p)
	return len(p), err
}

func (h *handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(h.at)
	case io.SeekEnd:
		off += int64(len(h.f.b))
	}
	if off < 0 {
		return 0, os.ErrInvalid
	}
	h.at = int(off)
	return off, nil
}

func (h *handle) Sync() error { return h.d.syncErr }

func (h *handle) Close() error {
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	return h.d.closeErr
}

func newDisk() *disk {
	d := &disk{files: map[string]*data{}, room: -1}
	os.VerifOpen = func(name string, flag int, perm os.FileMode) (os.VerifFile, error) {
		f := d.files[name]
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			if d.openErr != nil {
				return nil, d.openErr
			}
			if !d.frozen {
				d.names = append(d.names, name)
			}
		}
		switch {
		case f == nil && flag&os.O_CREATE == 0:
			return nil, os.ErrNotExist
		case f == nil:
			f = &data{}
			if !d.frozen {
				d.files[name] = f
			}
		case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
			return nil, os.ErrExist
		case flag&os.O_TRUNC != 0 && !d.frozen:
			f.b = nil
		}
		return &handle{d: d, f: f, app: flag&os.O_APPEND != 0}, nil
	}
	os.VerifRename = func(from, to string) error {
		f := d.files[from]
		if f == nil {
			return os.ErrNotExist
		}
		if d.renameErr != nil {
			return d.renameErr
		}
		if !d.frozen {
			delete(d.files, from)
			d.files[to] = f
		}
		return nil
	}
	os.VerifRemove = func(name string) error {
		if d.files[name] == nil {
			return os.ErrNotExist
		}
		if !d.frozen {
			delete(d.files, name)
		}
		return nil
	}
	return d
}

// ofx runs the command-line client; nothing happens to the disk and the network
// once it left.
func ofx(d *disk, n *network, args ...string) (code int, out string) {
	return v.RunCLI(ofxcli.Main, func() {
		if d != nil {
			d.frozen = true
		}
		n.frozen = true
	}, args...)
}
