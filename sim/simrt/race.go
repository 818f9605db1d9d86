package simrt

import "unsafe"

// Happens-before of channels, as the memory model has it: a send before the completion of its
// receive; the k-th receive before the completion of the (k+cap)-th send; on an unbuffered channel
// a receive before the completion of its send; a close before a receive that reports it.

type chanHB struct {
	slots []hbSlot
	wr    int // sends so far
	rd    int // receives so far
	close uint64
}

type hbSlot struct {
	sync uint64
	// waiters whose clocks count for the next send to or receive from the slot
	recvFrom, sendFrom unsafe.Pointer
}

//go:norace
func (x *tchan[T]) clocks() *chanHB {
	if x.hb == nil {
		x.hb = &chanHB{slots: make([]hbSlot, max(1, x.cap))}
	}
	return x.hb
}

func (h *chanHB) slot(n int) *hbSlot { return &h.slots[n%len(h.slots)] }

// every waiter starts with its task, the selection and the case, which take more than 16 bytes;
// its first words serve as the addresses of two clocks: what the waiter did before it waited, and
// what its partner did before it was woken.
func from(w unsafe.Pointer) unsafe.Pointer { return w }
func to(w unsafe.Pointer) unsafe.Pointer   { return unsafe.Add(w, 8) }

func hbWait(w unsafe.Pointer) {
	if Race {
		raceRel(from(w))
	}
}

func hbWoken(w unsafe.Pointer) {
	if Race {
		raceAcq(to(w))
	}
}

// hbSend: the current task sent a value, to the waiting receiver w or into the buffer.
//
//go:norace
func (x *tchan[T]) hbSend(w unsafe.Pointer) {
	h := x.clocks()
	if x.cap == 0 {
		if w != nil {
			raceAcq(from(w))
			raceRel(to(w))
		}
		return
	}
	s := h.slot(h.wr)
	h.wr++
	raceAcq(unsafe.Pointer(&s.sync))
	if s.recvFrom != nil {
		raceAcq(from(s.recvFrom))
		s.recvFrom = nil
	}
	if w == nil {
		raceRel(unsafe.Pointer(&s.sync))
		return
	}
	// handed over: the receive takes place right after the send
	raceRel(to(w))
	h.rd = h.wr
	s.recvFrom = w
}

// hbRecv: the current task received a value; w is the waiting sender that goes on.
//
//go:norace
func (x *tchan[T]) hbRecv(w unsafe.Pointer) {
	if x.foreign {
		x.hbClosed()
		return
	}
	h := x.clocks()
	if x.cap == 0 {
		if w != nil {
			raceAcq(from(w))
			raceRel(to(w))
		}
		return
	}
	s := h.slot(h.rd)
	h.rd++
	raceAcq(unsafe.Pointer(&s.sync))
	if s.sendFrom != nil {
		raceAcq(from(s.sendFrom))
		s.sendFrom = nil
	}
	raceRel(unsafe.Pointer(&s.sync))
	if w != nil { // its value takes the slot
		raceRel(to(w))
		h.wr++
		s.sendFrom = w
	}
}

//go:norace
func (x *tchan[T]) hbClose() {
	if Race {
		raceRel(unsafe.Pointer(&x.clocks().close))
	}
}

//go:norace
func (x *tchan[T]) hbClosed() { raceAcq(unsafe.Pointer(&x.clocks().close)) }

// hbForeign: the current task took over what uninstrumented code did to a channel.
//
//go:norace
func (x *tchan[T]) hbForeign() {
	if Race {
		raceRel(unsafe.Pointer(&x.clocks().close))
	}
}

// everyone is released by a task that blocks or ends, and acquired where all of them wait.
var everyone uint64

func relAll() {
	if Race {
		raceRel(unsafe.Pointer(&everyone))
	}
}

func acqAll() {
	if Race {
		raceAcq(unsafe.Pointer(&everyone))
	}
}

func acq(p unsafe.Pointer) {
	if Race {
		raceAcq(p)
	}
}

func rel(p unsafe.Pointer) {
	if Race {
		raceRel(p)
	}
}

// Reads and Wrote tell that a simulated system call read or filled a buffer.
func Reads(b []byte) {
	if Race && inTask() != nil {
		raceBytes(b, false)
	}
}

// Touch tells that the current task used a thing that at most one may use at a time, known by one
// of its fields.
func Touch(p *int) {
	if Race && inTask() != nil {
		raceWrite(unsafe.Pointer(p))
	}
}

// Wrote see Reads.
func Wrote(b []byte) {
	if Race && inTask() != nil {
		raceBytes(b, true)
	}
}
