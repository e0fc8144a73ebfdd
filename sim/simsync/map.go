//go:build !race

package simsync

import "verifsim/simrt"

// Map is a sync.Map whose order of iteration is that of insertion.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) yield() {
	if k := simrt.Active(); k != nil && simrt.Self() != nil {
		k.Yield("syncmap")
	}
}

func (m *Map) load(key any) (any, bool) { v, ok := m.m[key]; return v, ok }

func (m *Map) store(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) remove(key any) {
	if _, ok := m.m[key]; !ok {
		return
	}
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(key any) (value any, ok bool) { m.yield(); return m.load(key) }
func (m *Map) Store(key, value any)              { m.yield(); m.store(key, value) }
func (m *Map) Clear()                            { m.yield(); m.m, m.keys = nil, nil }
func (m *Map) Delete(key any)                    { m.yield(); m.remove(key) }

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.yield()
	if v, ok := m.load(key); ok {
		return v, true
	}
	m.store(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.yield()
	v, ok := m.load(key)
	m.remove(key)
	return v, ok
}

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.yield()
	v, ok := m.load(key)
	m.store(key, value)
	return v, ok
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.yield()
	if v, ok := m.load(key); ok && v == old {
		m.store(key, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.yield()
	if v, ok := m.load(key); ok && v == old {
		m.remove(key)
		return true
	}
	return false
}

func (m *Map) Range(f func(key, value any) bool) {
	m.yield()
	for _, k := range append([]any(nil), m.keys...) {
		m.yield()
		if v, ok := m.load(k); ok && !f(k, v) {
			return
		}
	}
}
