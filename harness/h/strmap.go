package h

import "sync"

// StrMap is a map safe for concurrent use.
type StrMap struct {
	mu sync.Mutex
	m  map[string]interface{}
}

// Put sets a key.
func (s *StrMap) Put(k string, v interface{}) {
	s.mu.Lock()
	if s.m == nil {
		s.m = map[string]interface{}{}
	}
	s.m[k] = v
	s.mu.Unlock()
}

// Get reads a key.
func (s *StrMap) Get(k string) interface{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.m[k]
}

// Reset empties the map.
func (s *StrMap) Reset() {
	s.mu.Lock()
	s.m = nil
	s.mu.Unlock()
}
