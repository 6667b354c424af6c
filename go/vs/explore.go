package vs

// Explorer enumerates all choice sequences by depth-first search with replay, bounding the number of
// preemptions (scheduling deviations) and of environment deviations separately.
type Explorer struct {
	Preempt int // bound on preemptions per execution
	Env     int // bound on environment deviations per execution (choices made with cost 1)
	MaxExec int // cap on executions, 0 = none
	Tracing bool

	points []choice
	pos    int

	Execs     int
	Nodes     int // choice nodes of the exploration tree
	Steps     int
	Capped    bool
	Diverged  int
	MaxPoints int
	pcost     int
	ecost     int
}

type choice struct {
	n, chosen int
	cost      int // cost of an alternative > 0
	env       bool
}

func (e *Explorer) chooseThread(n, cost int) int { return e.choose(n, cost, false) }

func (e *Explorer) choose(n, cost int, env bool) int {
	if e.pos < len(e.points) {
		p := &e.points[e.pos]
		e.pos++
		if p.n != n {
			if p.n >= 0 {
				e.Diverged++
			}
			p.n = n
			if p.chosen >= n {
				p.chosen = n - 1
			}
		}
		return p.chosen
	}
	e.points = append(e.points, choice{n: n, cost: cost, env: env})
	e.pos++
	e.Nodes++
	return 0
}

// Choose is a free environment choice among n alternatives (all explored).
func Choose(n int) int {
	if S == nil || S.Ex == nil || n <= 1 || S.killing {
		return 0
	}
	return S.Ex.choose(n, 0, true)
}

// Deviate is an environment choice whose alternatives > 0 count against the deviation bound.
func Deviate(n int) int {
	if S == nil || S.Ex == nil || n <= 1 || S.killing {
		return 0
	}
	return S.Ex.choose(n, 1, true)
}

// Choices of the current execution, for replay files.
func (e *Explorer) Choices() []int {
	out := make([]int, len(e.points))
	for i, p := range e.points {
		out[i] = p.chosen
	}
	return out
}

// SetReplay fixes the choice sequence of the next execution.
func (e *Explorer) SetReplay(ch []int) {
	e.points = e.points[:0]
	for _, c := range ch {
		e.points = append(e.points, choice{n: -1, chosen: c})
	}
	e.pos = 0
}

// RunOnce executes with a fixed choice sequence (replay).
func (e *Explorer) RunOnce(ch []int, f func()) {
	e.points = e.points[:0]
	for _, c := range ch {
		e.points = append(e.points, choice{n: -1, chosen: c})
	}
	e.pos = 0
	f()
}

// Explore runs f for every choice sequence within the bounds; f returns false to stop.
func (e *Explorer) Explore(f func() bool) {
	e.points = e.points[:0]
	for {
		e.pos = 0
		e.Execs++
		ok := f()
		if len(e.points) > e.MaxPoints {
			e.MaxPoints = len(e.points)
		}
		if e.pos < len(e.points) { // execution was shorter than its prefix: divergence
			e.Diverged++
			e.points = e.points[:e.pos]
		}
		if !ok {
			return
		}
		if e.MaxExec > 0 && e.Execs >= e.MaxExec {
			e.Capped = true
			return
		}
		if !e.backtrack() {
			return
		}
	}
}

func (e *Explorer) backtrack() bool {
	pc, ec := 0, 0
	for _, p := range e.points {
		if p.chosen > 0 {
			if p.env {
				ec += p.cost
			} else {
				pc += p.cost
			}
		}
	}
	for i := len(e.points) - 1; i >= 0; i-- {
		p := &e.points[i]
		if p.chosen > 0 {
			if p.env {
				ec -= p.cost
			} else {
				pc -= p.cost
			}
		}
		if p.chosen+1 < p.n {
			okc := false
			if p.env {
				okc = ec+p.cost <= e.Env
			} else {
				okc = pc+p.cost <= e.Preempt
			}
			if okc {
				p.chosen++
				e.points = e.points[:i+1]
				return true
			}
		}
	}
	return false
}
