package main

import (
	"encoding/json"
	"hash/fnv"
	"math/rand"

	"verif/sim/gen"
)

// Fault is one injected fault.
type Fault struct {
	At   int    // byte offset (streams) or number of the file system call
	Kind string // see world.go
	N    int    `json:",omitempty"`
}

// Dmg is one piece of damage to an input.
type Dmg struct {
	Kind string // cut flip del dup num swap zero ins
	At   int
	N    int    `json:",omitempty"`
	S    string `json:",omitempty"`
}

// FontSpec describes a font file.
type FontSpec struct {
	File string `json:",omitempty"`
	Seed uint64 `json:",omitempty"`
}

// Op is one call of the library.
type Op struct {
	K        string
	Tmpl     *gen.Tmpl `json:",omitempty"`
	Font     *FontSpec `json:",omitempty"`
	Img      *gen.Img  `json:",omitempty"`
	Name     string    `json:",omitempty"`
	Text     string    `json:",omitempty"`
	Style    string    `json:",omitempty"`
	Page     int       `json:",omitempty"`
	Pos      int       `json:",omitempty"`
	Size     int       `json:",omitempty"`
	Align    int       `json:",omitempty"`
	X        float64   `json:",omitempty"`
	Y        float64   `json:",omitempty"`
	W        float64   `json:",omitempty"`
	H        float64   `json:",omitempty"`
	Col      *[3]int   `json:",omitempty"`
	Via      string    `json:",omitempty"`
	Chunk    uint64    `json:",omitempty"`
	Faults   []Fault   `json:",omitempty"`
	Scribble bool      `json:",omitempty"`
	Bad      string    `json:",omitempty"` // this call must fail
	Damage   []Dmg     `json:",omitempty"`
	User     []byte    `json:",omitempty"`
	Owner    []byte    `json:",omitempty"`
	Perm     int       `json:",omitempty"`
	Fields   []Field   `json:",omitempty"`
	Kind     int       `json:",omitempty"`
	On       bool      `json:",omitempty"`
}

// Field is a field of a form.
type Field struct {
	Key        string
	Page       int
	X, Y, W, H float64
	Align      int
	Font       string
	Size       int
	Wrap       bool
}

// Task is what one goroutine of the program does.
type Task struct{ Ops []Op }

// Slice is one turn of a task: how many steps it runs.
type Slice struct{ T, N int }

// Plan is one simulated run, completely.
type Plan struct {
	Prop    string
	Idx     int
	Seed    uint64
	Map     uint64 // map order and other runtime randomness
	Entropy uint64
	Clock   int64
	Tasks   []Task
	Sched   uint64  `json:",omitempty"` // seed of the scheduler
	Mean    int     `json:",omitempty"` // mean length of a turn
	Slices  []Slice `json:",omitempty"` // explicit schedule (replay)
	Share   bool    `json:",omitempty"` // tasks are given the same buffers
	Note    string  `json:",omitempty"`
}

func (p Plan) clone() Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return q
}

func mix(parts ...interface{}) uint64 {
	h := fnv.New64a()
	b, _ := json.Marshal(parts)
	h.Write(b)
	return h.Sum64()
}

func newRand(parts ...interface{}) *rand.Rand {
	return rand.New(rand.NewSource(int64(mix(parts...) >> 1)))
}
