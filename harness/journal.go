package main

import (
	"encoding/binary"
	"os"
	"syscall"
)

// The journal is a shared memory file in which each worker slot notes the case
// it is running, so that the driver knows what was running when a worker dies
// or stops making progress.
type journal struct{ mem []byte }

const (
	jslots = 64
	jsize  = 128
)

func openJournal(path string) (*journal, error) {
	if path == "" {
		return nil, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(jslots * jsize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, jslots*jsize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &journal{mem}, nil
}

func (j *journal) enter(slot int, label string, i int) {
	if j == nil || slot >= jslots {
		return
	}
	b := j.mem[slot*jsize : (slot+1)*jsize]
	b[0] = 0
	binary.LittleEndian.PutUint32(b[4:], uint32(i))
	n := copy(b[9:], label)
	b[8] = byte(n)
	b[0] = 1
}

func (j *journal) leave(slot int) {
	if j == nil || slot >= jslots {
		return
	}
	j.mem[slot*jsize] = 0
}

func (j *journal) read(slot int) (label string, i int, ok bool) {
	b := j.mem[slot*jsize : (slot+1)*jsize]
	if b[0] != 1 {
		return "", 0, false
	}
	return string(b[9 : 9+int(b[8])]), int(binary.LittleEndian.Uint32(b[4:])), true
}
