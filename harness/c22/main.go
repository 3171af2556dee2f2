// C22: processing runs every stage once in order and writes only a complete result.
package main

import (
	"errors"
	"io/ioutil"
	"log"
	"os"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/writer"
	"verifharness/sym"
)

type world struct {
	events                               []string
	fail                                 string
	model                                *model
	opt                                  *optModel
	layers                               []data.PartitionedLayer
	readPath, writePath, code, generated string
	err                                  error
}

func (w *world) at(ev string) error {
	w.events = append(w.events, ev)
	if ev == w.fail {
		return w.err
	}
	return nil
}

type model struct{}

func (*model) FaceCount() int      { return 0 }
func (*model) Face(int) data.Face  { return nil }
func (*model) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (*model) Max() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }

type optModel struct{ data.OptimizedModel }

type reader struct{ w *world }

func (r reader) Read(f string) (data.Model, error) {
	r.w.readPath = f
	return r.w.model, r.w.at("read")
}

type optimizer struct{ w *world }

func (r optimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	sym.Assert(m == data.Model(r.w.model), "the optimizer gets the model which was read")
	return r.w.opt, r.w.at("optimize")
}

type slicer struct{ w *world }

func (r slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	sym.Assert(m == data.OptimizedModel(r.w.opt), "the slicer gets the optimized model")
	return r.w.layers, r.w.at("slice")
}

type modifier struct {
	w *world
	n string
}

func (r modifier) GetName() string { return "mod" }
func (r modifier) Init(m data.OptimizedModel) {
	sym.Assert(m == data.OptimizedModel(r.w.opt), "modifiers are initialised with the optimized model")
	r.w.at("init" + r.n)
}
func (r modifier) Modify(l []data.PartitionedLayer) error {
	sym.Assert(len(l) == len(r.w.layers), "modifiers get the sliced layers")
	for i := range l {
		// a modifier may replace layers in place
		sym.Assert(l[i].LayerParts()[0].Outline()[0].X() == data.Micrometer(i), "modifiers get the sliced layers in order")
		l[i] = data.NewPartitionedLayer(append(l[i].LayerParts(), l[i].LayerParts()[0]))
	}
	return r.w.at("modify" + r.n)
}

type generator struct {
	w    *world
	mods int
}

func (r generator) Init(m data.OptimizedModel) {
	sym.Assert(m == data.OptimizedModel(r.w.opt), "the generator is initialised with the optimized model")
	r.w.at("initgen")
}
func (r generator) Generate(l []data.PartitionedLayer) (string, error) {
	sym.Assert(len(l) == len(r.w.layers), "the generator gets the layers")
	for i := range l {
		sym.Assert(len(l[i].LayerParts()) == 1+r.mods, "the generator gets the modified layers")
	}
	return r.w.code, r.w.at("generate")
}

type sink struct{ w *world }

func (r sink) Write(g string, dest string) error {
	r.w.generated, r.w.writePath = g, dest
	return r.w.at("write")
}

// H_process: Process with recording stages: 0..3 modifiers, 0..2 layers, a failure at any stage or none, input and output
// paths of 0..3 arbitrary bytes, result of 0..3 arbitrary bytes.
//
// sym: time=150 covers=ok,failed
func H_process() {
	w := &world{model: &model{}, opt: &optModel{}, err: errors.New("stage")}
	nm := sym.Choose("modifiers", 4)
	nl := sym.Choose("layers", 3)
	for i := 0; i < nl; i++ {
		w.layers = append(w.layers, data.NewPartitionedLayer([]data.LayerPart{data.NewBasicLayerPart(data.Path{data.NewMicroPoint(data.Micrometer(i), 0)}, nil)}))
	}
	in := sym.Str("in", sym.Choose("inlen", 4), 1, 126)
	out := sym.Str("out", sym.Choose("outlen", 4), 1, 126)
	w.code = sym.Str("code", sym.Choose("codelen", 4), 1, 126)
	want := []string{"read", "optimize", "slice"}
	var mods []handler.LayerModifier
	for i := 0; i < nm; i++ {
		n := string(rune('0' + i))
		mods = append(mods, modifier{w, n})
		want = append(want, "init"+n, "modify"+n)
	}
	want = append(want, "initgen", "generate", "write")
	stages := []string{}
	for _, s := range want {
		if s[:4] != "init" {
			stages = append(stages, s)
		}
	}
	f := sym.Choose("fail", len(stages)+1)
	if f > 0 {
		w.fail = stages[f-1]
		for i, s := range want {
			if s == w.fail {
				want = want[:i+1]
				break
			}
		}
	}
	g := &goslice.GoSlice{
		Options:   data.GoSliceOptions{InputFilePath: in, OutputFilePath: out, Logger: log.New(ioutil.Discard, "", 0)},
		Reader:    reader{w},
		Optimizer: optimizer{w},
		Slicer:    slicer{w},
		Modifiers: mods,
		Generator: generator{w, nm},
		Writer:    sink{w},
	}
	err := g.Process()
	sym.Assert(len(w.events) == len(want), "every stage up to the first failing one runs once")
	for i := range want {
		sym.Assert(w.events[i] == want[i], "order of the stages")
	}
	if f > 0 {
		sym.Assert(err == w.err, "the error of the failing stage is returned")
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "success")
		sym.Cover("ok")
	}
	sym.Assert(w.readPath == in, "the input path is read")
	if w.events[len(w.events)-1] == "write" {
		sym.Assert(w.generated == w.code, "the generated code is written unchanged")
		if len(out) > 0 {
			sym.Assert(w.writePath == out, "written to the output path")
		} else {
			sym.Assert(w.writePath == in+".gcode", "written beside the input")
		}
	}
}

// H_write: writing 0..4 arbitrary bytes to a new file, over an existing file, to a place where no file can be created and to a full device.
//
// sym: time=60 covers=ok,failed
func H_write() {
	s := sym.Str("code", sym.Choose("len", 5), 0, 255)
	path := sym.TempFile("out.gcode")
	kind := sym.Choose("kind", 4)
	switch kind {
	case 1:
		sym.Assert(ioutil.WriteFile(path, []byte("earlier and longer content"), 0600) == nil, "harness")
	case 2:
		path = sym.TempFile("missing/out.gcode")
	case 3:
		path = "/dev/full"
	}
	err := writer.Writer().Write(s, path)
	if kind == 2 || kind == 3 && len(s) > 0 {
		sym.Assert(err != nil, "a failure to write is returned")
		sym.Cover("failed")
		return
	}
	if kind == 3 {
		return
	}
	sym.Assert(err == nil, "no error")
	b, err := os.ReadFile(path)
	sym.Assert(err == nil, "the file exists")
	sym.Assert(string(b) == s, "the file holds exactly the code")
	sym.Cover("ok")
	// and once more
	sym.Assert(writer.Writer().Write("x", path) == nil, "no error")
	b, err = os.ReadFile(path)
	sym.Assert(err == nil && string(b) == "x", "earlier content is replaced")
}

func main() {
	sym.Main(map[string]func(){"H_process": H_process, "H_write": H_write})
}
