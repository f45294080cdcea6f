// Package avltree is a stand-in for github.com/emirpasic/gods/trees/avltree:
// the same API and the textbook AVL insertion, removal and rotation that
// package uses, so trees get the same shapes.
package avltree

import "github.com/emirpasic/gods/utils"

// Tree holds the elements of the AVL tree.
type Tree struct {
	Root       *Node
	Comparator utils.Comparator
	size       int
}

// Node is a single element of the tree.
type Node struct {
	Key      interface{}
	Value    interface{}
	Parent   *Node
	Children [2]*Node
	b        int8
}

// NewWith returns an empty tree with a comparator.
func NewWith(c utils.Comparator) *Tree { return &Tree{Comparator: c} }

// NewWithIntComparator returns an empty tree of int keys.
func NewWithIntComparator() *Tree { return NewWith(utils.IntComparator) }

// NewWithStringComparator returns an empty tree of string keys.
func NewWithStringComparator() *Tree { return NewWith(utils.StringComparator) }

// Put inserts or replaces.
func (t *Tree) Put(key, value interface{}) { t.put(key, value, nil, &t.Root) }

// Get finds the value of a key.
func (t *Tree) Get(key interface{}) (interface{}, bool) {
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n.Value, true
		case c < 0:
			n = n.Children[0]
		default:
			n = n.Children[1]
		}
	}
	return nil, false
}

// Remove removes a key.
func (t *Tree) Remove(key interface{}) { t.remove(key, &t.Root) }

// Empty tells whether there are no nodes.
func (t *Tree) Empty() bool { return t.size == 0 }

// Size is the number of nodes.
func (t *Tree) Size() int { return t.size }

// Clear removes everything.
func (t *Tree) Clear() { t.Root, t.size = nil, 0 }

// Keys returns the keys in order.
func (t *Tree) Keys() []interface{} {
	keys := make([]interface{}, 0, t.size)
	for n := t.Left(); n != nil; n = n.Next() {
		keys = append(keys, n.Key)
	}
	return keys
}

// Values returns the values in key order.
func (t *Tree) Values() []interface{} {
	vs := make([]interface{}, 0, t.size)
	for n := t.Left(); n != nil; n = n.Next() {
		vs = append(vs, n.Value)
	}
	return vs
}

// Left returns the minimum node, or nil.
func (t *Tree) Left() *Node { return t.bottom(0) }

// Right returns the maximum node, or nil.
func (t *Tree) Right() *Node { return t.bottom(1) }

func (t *Tree) bottom(d int) *Node {
	n := t.Root
	if n == nil {
		return nil
	}
	for c := n.Children[d]; c != nil; c = n.Children[d] {
		n = c
	}
	return n
}

// Floor finds the largest node not above key.
func (t *Tree) Floor(key interface{}) (floor *Node, found bool) {
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n, true
		case c < 0:
			n = n.Children[0]
		default:
			floor, found = n, true
			n = n.Children[1]
		}
	}
	return floor, found
}

// Ceiling finds the smallest node not below key.
func (t *Tree) Ceiling(key interface{}) (ceiling *Node, found bool) {
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n, true
		case c < 0:
			ceiling, found = n, true
			n = n.Children[0]
		default:
			n = n.Children[1]
		}
	}
	return ceiling, found
}

func (t *Tree) put(key, value interface{}, p *Node, qp **Node) bool {
	q := *qp
	if q == nil {
		t.size++
		*qp = &Node{Key: key, Value: value, Parent: p}
		return true
	}
	c := t.Comparator(key, q.Key)
	if c == 0 {
		q.Key, q.Value = key, value
		return false
	}
	if c < 0 {
		c = -1
	} else {
		c = 1
	}
	a := (c + 1) / 2
	if t.put(key, value, q, &q.Children[a]) {
		return putFix(int8(c), qp)
	}
	return false
}

func (t *Tree) remove(key interface{}, qp **Node) bool {
	q := *qp
	if q == nil {
		return false
	}
	c := t.Comparator(key, q.Key)
	if c == 0 {
		t.size--
		if q.Children[1] == nil {
			if q.Children[0] != nil {
				q.Children[0].Parent = q.Parent
			}
			*qp = q.Children[0]
			return true
		}
		if removeMin(&q.Children[1], &q.Key, &q.Value) {
			return removeFix(-1, qp)
		}
		return false
	}
	if c < 0 {
		c = -1
	} else {
		c = 1
	}
	a := (c + 1) / 2
	if t.remove(key, &q.Children[a]) {
		return removeFix(int8(-c), qp)
	}
	return false
}

func removeMin(qp **Node, minKey, minVal *interface{}) bool {
	q := *qp
	if q.Children[0] == nil {
		*minKey, *minVal = q.Key, q.Value
		if q.Children[1] != nil {
			q.Children[1].Parent = q.Parent
		}
		*qp = q.Children[1]
		return true
	}
	if removeMin(&q.Children[0], minKey, minVal) {
		return removeFix(1, qp)
	}
	return false
}

func putFix(c int8, t **Node) bool {
	s := *t
	if s.b == 0 {
		s.b = c
		return true
	}
	if s.b == -c {
		s.b = 0
		return false
	}
	if s.Children[(c+1)/2].b == c {
		s = singlerot(c, s)
	} else {
		s = doublerot(c, s)
	}
	*t = s
	return false
}

func removeFix(c int8, t **Node) bool {
	s := *t
	if s.b == 0 {
		s.b = c
		return false
	}
	if s.b == -c {
		s.b = 0
		return true
	}
	a := (c + 1) / 2
	if s.Children[a].b == 0 {
		s = rotate(c, s)
		s.b = -c
		*t = s
		return false
	}
	if s.Children[a].b == c {
		s = singlerot(c, s)
	} else {
		s = doublerot(c, s)
	}
	*t = s
	return true
}

func singlerot(c int8, s *Node) *Node {
	s.b = 0
	s = rotate(c, s)
	s.b = 0
	return s
}

func doublerot(c int8, s *Node) *Node {
	a := (c + 1) / 2
	r := s.Children[a]
	s.Children[a] = rotate(-c, s.Children[a])
	p := rotate(c, s)
	switch {
	case p.b == c:
		s.b, r.b = -c, 0
	case p.b == -c:
		s.b, r.b = 0, c
	default:
		s.b, r.b = 0, 0
	}
	p.b = 0
	return p
}

func rotate(c int8, s *Node) *Node {
	a := (c + 1) / 2
	r := s.Children[a]
	s.Children[a] = r.Children[a^1]
	if s.Children[a] != nil {
		s.Children[a].Parent = s
	}
	r.Children[a^1] = s
	r.Parent = s.Parent
	s.Parent = r
	return r
}

// Prev returns the previous node in order.
func (n *Node) Prev() *Node { return n.walk1(0) }

// Next returns the next node in order.
func (n *Node) Next() *Node { return n.walk1(1) }

func (n *Node) walk1(a int) *Node {
	if n == nil {
		return nil
	}
	if n.Children[a] != nil {
		n = n.Children[a]
		for n.Children[a^1] != nil {
			n = n.Children[a^1]
		}
		return n
	}
	p := n.Parent
	for p != nil && p.Children[a] == n {
		n, p = p, p.Parent
	}
	return p
}
