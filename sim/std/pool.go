// Replacement for package sync's pool.go in simulated builds: a pool that
// never keeps anything. The original drops objects at random under the race
// detector and adds happens-before edges between unrelated users of package
// fmt and others, which would make race reports depend on chance.

package sync

// A Pool is a set of temporary objects; this one is always empty.
type Pool struct {
	noCopy noCopy
	New    func() any
}

// Put drops x.
func (p *Pool) Put(x any) {}

// Get makes a new object.
func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
