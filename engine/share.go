package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
)

// Answers of the solver are shared between the workers of one check run: the same query
// (up to term numbering) arises in many parts of a harness. The directory lives as long as
// the run.

type hash [16]byte

type answer struct {
	Res  int               `json:"r"`
	Vars map[string]uint64 `json:"v,omitempty"`
}

// hashOf is a structural hash of a term; variables are told apart by name.
func (s *Solver) hashOf(t *Term) hash {
	if h, ok := s.hashes[t.id]; ok {
		return h
	}
	var b []byte
	b = append(b, byte(t.op), t.w)
	k := t.k
	if t.op == OVar {
		b = append(b, s.T.vars[t.k].name...)
		k = 0
	}
	b = binary.LittleEndian.AppendUint64(b, k)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			h := s.hashOf(x)
			b = append(b, h[:]...)
		}
	}
	var h hash
	sum := sha256.Sum256(b)
	copy(h[:], sum[:])
	s.hashes[t.id] = h
	return h
}

func (s *Solver) sharePath(conds []*Term) string {
	var l []string
	for _, c := range conds {
		h := s.hashOf(c)
		l = append(l, string(h[:]))
	}
	sort.Strings(l)
	d := sha256.New()
	for _, x := range l {
		d.Write([]byte(x))
	}
	n := hex.EncodeToString(d.Sum(nil)[:16])
	return filepath.Join(s.shareDir, n[:2], n)
}

// shared looks an answer up; a model is checked before it is believed.
func (s *Solver) shared(path string, conds []*Term, sup *Sup) (cached, bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return cached{}, false
	}
	var a answer
	if json.Unmarshal(b, &a) != nil {
		return cached{}, false
	}
	if a.Res == unsat {
		return cached{unsat, nil}, true
	}
	m := Model{}
	for i, wd := range sup.bits {
		for b := 0; b < 64; b++ {
			if wd>>b&1 == 1 {
				m[i*64+b] = a.Vars[s.T.vars[i*64+b].name]
			}
		}
	}
	for _, c := range conds {
		if s.T.Eval(c, m) != 1 {
			return cached{}, false
		}
	}
	return cached{sat, m}, true
}

func (s *Solver) share(path string, r cached) {
	if r.res == unknown {
		return
	}
	a := answer{Res: r.res}
	if r.res == sat {
		a.Vars = map[string]uint64{}
		for i, v := range r.model {
			a.Vars[s.T.vars[i].name] = v
		}
	}
	b, _ := json.Marshal(a)
	d := filepath.Dir(path)
	os.MkdirAll(d, 0o755)
	f, err := os.CreateTemp(d, "x")
	if err != nil {
		return
	}
	_, err = f.Write(b)
	if f.Close() == nil && err == nil {
		os.Rename(f.Name(), path)
	}
}
