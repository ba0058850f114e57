package sync

type Mutex struct{ state int }

func (m *Mutex) Lock()   { m.state++ }
func (m *Mutex) Unlock() { m.state-- }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !o.done {
		o.m.Lock()
		defer o.m.Unlock()
		o.done = true
		f()
	}
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) { w.n += d }
func (w *WaitGroup) Done()     { w.n-- }
func (w *WaitGroup) Wait()     {}

type Pool struct{ New func() any }

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
