package rt

// Mutex of the code under test.
type Mutex struct {
	locked bool
	wait   []*Task
}

func (m *Mutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	me := s.alive()
	s.opPoint()
	s.alive()
	for m.locked {
		m.wait = append(m.wait, me)
		s.block("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil || s.cur == nil {
		return true
	}
	s.alive()
	s.opPoint()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.alive()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	for _, t := range m.wait {
		s.ready(t)
	}
	m.wait = nil
	s.opPoint()
}

type RWMutex struct {
	w    bool
	r    int
	wait []*Task
	ww   int
}

func (m *RWMutex) wake(s *Sim) {
	for _, t := range m.wait {
		s.ready(t)
	}
	m.wait = nil
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	me := s.alive()
	s.opPoint()
	m.ww++
	for m.w || m.r > 0 {
		m.wait = append(m.wait, me)
		s.block("rwmutex")
	}
	m.ww--
	m.w = true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.alive()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wake(s)
	s.opPoint()
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	me := s.alive()
	s.opPoint()
	for m.w || m.ww > 0 {
		m.wait = append(m.wait, me)
		s.block("rwmutex")
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.alive()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.wake(s)
	s.opPoint()
}

// Event lets tasks wait for a condition; used by the WaitGroup, Once and Cond shims.
type WaitList struct{ ts []*Task }

func (w *WaitList) Wait(why string) {
	s := S
	me := s.alive()
	w.ts = append(w.ts, me)
	s.block(why)
}

func (w *WaitList) WakeAll() {
	s := S
	if s == nil {
		return
	}
	for _, t := range w.ts {
		s.ready(t)
	}
	w.ts = nil
}

func (w *WaitList) WakeOne() {
	if len(w.ts) > 0 {
		S.ready(w.ts[0])
		w.ts = w.ts[1:]
	}
}

// Point is a scheduling point without effect.
func Point() {
	if S != nil && S.cur != nil {
		S.alive()
		S.opPoint()
		S.alive()
	}
}
// Tick advances the simulated clock as an operation of the current process.
func Tick() {
	if S != nil && S.cur != nil {
		S.alive()
		S.tick()
		S.opPoint()
		S.alive()
	}
}

func Wall() int64 {
	if S == nil {
		return Epoch
	}
	return Epoch + S.now + S.Offset
}
