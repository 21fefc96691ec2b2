// Demonstrations of the genuine defects found in CubeFlix/nn, one test per
// defect. Run with findings/run.sh [REPO]. Every test fails on the original
// code ("base" commit) and passes after the fix: commits.
package nn

import (
	"bytes"
	"encoding/binary"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func mk(v ...[]float64) Matrix { m, _ := NewMatrixFromSlice(v); return m }

func nopanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s panicked: %v", what, r)
		}
	}()
	f()
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-6*(1+math.Abs(b)) }

func TestDefectNegativeIndex(t *testing.T) {
	m := mk([]float64{1, 2}, []float64{3, 4})
	nopanic(t, "negative index", func() {
		if _, err := m.Get(-1, 0); err == nil {
			t.Error("Get")
		}
		if err := m.Set(0, -1, 1); err == nil {
			t.Error("Set")
		}
		if _, err := m.GetRow(-1); err == nil {
			t.Error("GetRow")
		}
		if _, err := m.GetColumn(-1); err == nil {
			t.Error("GetColumn")
		}
		if err := m.SetRow(-1, []float64{1, 2}); err == nil {
			t.Error("SetRow")
		}
		if err := m.SetColumn(-1, []float64{1, 2}); err == nil {
			t.Error("SetColumn")
		}
	})
}

func TestDefectRaggedSlice(t *testing.T) {
	if _, err := NewMatrixFromSlice([][]float64{{1, 2}, {3}}); err == nil {
		t.Error("ragged slice accepted")
	}
}

func TestDefectSetRowAliases(t *testing.T) {
	m, _ := NewMatrix(2, 2)
	v := []float64{1, 2}
	m.SetRow(0, v)
	v[0] = 9
	if m.M[0][0] != 1 {
		t.Error("matrix shares storage with the slice passed to SetRow")
	}
}

func TestDefectClipBoundsAndMutation(t *testing.T) {
	m := mk([]float64{0, 1, -2, 3})
	c := Clip(m)
	if c.M[0][0] != 1e-7 || c.M[0][1] != 1-1e-7 {
		t.Errorf("0 and 1 not clipped: %v", c.M)
	}
	if m.M[0][2] != -2 {
		t.Error("argument modified")
	}
}

func TestDefectCrossEntropyInfinite(t *testing.T) {
	l, _ := NewCrossEntropyLoss(2)
	j, _ := l.Forward(mk([]float64{0, 1}), mk([]float64{1, 0}))
	if math.IsInf(j, 0) || math.IsNaN(j) {
		t.Errorf("loss %v", j)
	}
	d, _ := l.Backward(mk([]float64{0, 1}), mk([]float64{0, 1}))
	if math.IsNaN(d.M[0][0]) {
		t.Errorf("gradient %v", d.M)
	}
	b, _ := NewBinaryCrossEntropyLoss(1)
	j, _ = b.Forward(mk([]float64{1}), mk([]float64{1}))
	if math.IsInf(j, 0) || math.IsNaN(j) {
		t.Errorf("binary loss %v", j)
	}
}

func TestDefectLossRowMismatch(t *testing.T) {
	p, y := mk([]float64{.4, .6}, []float64{.4, .6}), mk([]float64{0, 1})
	c, _ := NewCrossEntropyLoss(2)
	b, _ := NewBinaryCrossEntropyLoss(2)
	for _, l := range []Loss{&c, &b} {
		l := l
		nopanic(t, "row mismatch", func() {
			if _, err := l.Forward(p, y); err == nil {
				t.Error("Forward accepted")
			}
			if _, err := l.Backward(p, y); err == nil {
				t.Error("Backward accepted")
			}
		})
	}
}

func TestDefectRegressionLossFirstRowOnly(t *testing.T) {
	p, y := mk([]float64{1, 2}, []float64{5, 9}), mk([]float64{1, 2}, []float64{3, 5})
	s, _ := NewMeanSquaredLoss(2)
	if j, _ := s.Forward(p, y); !near(j, 5) {
		t.Errorf("mean squared loss %v, want 5", j)
	}
	a, _ := NewMeanAbsoluteLoss(2)
	if j, _ := a.Forward(p, y); !near(j, 1.5) {
		t.Errorf("mean absolute loss %v, want 1.5", j)
	}
}

func TestDefectRegressionLossGradient(t *testing.T) {
	p, y := mk([]float64{1, 2}, []float64{5, 9}), mk([]float64{0, 3}, []float64{3, 5})
	s, _ := NewMeanSquaredLoss(2)
	a, _ := NewMeanAbsoluteLoss(2)
	for _, l := range []Loss{&s, &a} {
		g, _ := l.Backward(p, y)
		q := mk([]float64{1, 2}, []float64{5 + 1e-6, 9})
		j0, _ := l.Forward(p, y)
		j1, _ := l.Forward(q, y)
		if math.Abs((j1-j0)/1e-6-g.M[1][0]) > 1e-3 {
			t.Errorf("%T: gradient %v, numeric %v", l, g.M[1][0], (j1-j0)/1e-6)
		}
	}
}


func (m *Matrix) copyForTest() Matrix { c := m.AddScalar(0); return c }

func TestDefectSigmoidGradient(t *testing.T) {
	for _, n := range []int{2, 3, 4} {
		nopanic(t, "sigmoid backward", func() {
			l, _ := NewSigmoidLayer(3, n)
			l.Init()
			x := mk([]float64{.5, -1, 2})
			dv, _ := NewMatrix(1, n)
			dv = dv.AddScalar(.7)
			w := l.Weights
			f := func() float64 {
				o, _ := l.Forward(x.copyForTest())
				s := 0.0
				for j := range o.M[0] {
					s += o.M[0][j] * dv.M[0][j]
				}
				return s
			}
			j0 := f()
			dw, _, _, err := l.Backward(x.copyForTest(), dv.copyForTest())
			if err != nil {
				t.Errorf("size %d: %v", n, err)
				return
			}
			w.M[0][1] += 1e-6
			j1 := f()
			if math.Abs((j1-j0)/1e-6-dw.M[0][1]) > 1e-3 {
				t.Errorf("size %d: dW %v, numeric %v", n, dw.M[0][1], (j1-j0)/1e-6)
			}
		})
	}
}

func TestDefectLayerMutatesArguments(t *testing.T) {
	a, _ := NewLayer(2, 2)
	b, _ := NewLeakyLayer(2, 2, .1)
	c, _ := NewDropoutLayer(2, 2, .5)
	d, _ := NewSigmoidLayer(2, 2)
	for _, l := range []Layer{&a, &b, &c, &d} {
		l.Init()
		x, dv := mk([]float64{1, -3}, []float64{-2, .5}), mk([]float64{1, 2}, []float64{3, 4})
		x0, dv0 := x.copyForTest(), dv.copyForTest()
		l.Forward(x)
		l.Backward(x, dv)
		if !x.Equals(x0) || !dv.Equals(dv0) {
			t.Errorf("%T modified its arguments", l)
		}
	}
}

func TestDefectLeakyZeroSlope(t *testing.T) {
	l, _ := NewLeakyLayer(1, 1, 0)
	l.Weights.M[0][0] = 1
	l.Forward(mk([]float64{-2}))
	dw, _, _, _ := l.Backward(mk([]float64{-2}), mk([]float64{1}))
	if dw.M[0][0] != 0 {
		t.Errorf("gradient %v at a negative input with slope 0", dw.M[0][0])
	}
}

func TestDefectLayerRowMismatch(t *testing.T) {
	a, _ := NewLayer(1, 1)
	b, _ := NewLeakyLayer(1, 1, .1)
	c, _ := NewDropoutLayer(1, 1, .5)
	for _, l := range []Layer{&a, &b, &c} {
		l := l
		nopanic(t, "gradient with more samples than the input", func() {
			l.Forward(mk([]float64{1}))
			if _, _, _, err := l.Backward(mk([]float64{1}), mk([]float64{1}, []float64{1})); err == nil {
				t.Errorf("%T accepted", l)
			}
		})
	}
}

func TestDefectSoftmaxOverflow(t *testing.T) {
	s := Softmax(mk([]float64{1000, 0}))
	if math.IsNaN(s.M[0][0]) {
		t.Error("NaN")
	}
}

func TestDefectDropoutScale(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, .5)
	l.Weights.M[0][0] = 1
	for {
		o, _ := l.Forward(mk([]float64{1}))
		if o.M[0][0] == 0 {
			continue
		}
		dw, _, _, _ := l.Backward(mk([]float64{1}), mk([]float64{1}))
		if dw.M[0][0] != o.M[0][0] {
			t.Errorf("output scaled by %v, gradient by %v", o.M[0][0], dw.M[0][0])
		}
		return
	}
}

func TestDefectDropoutOneNaN(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, 1)
	l.Weights.M[0][0] = 1
	if o, _ := l.Forward(mk([]float64{1})); math.IsNaN(o.M[0][0]) {
		t.Error("NaN")
	}
}

func TestDefectDropoutBackwardAfterInference(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, .5)
	nopanic(t, "backward after dropout-free forward", func() {
		l.ForwardNoDropout(mk([]float64{1}))
		l.Backward(mk([]float64{1}), mk([]float64{1}))
	})
}

func TestDefectBinomialSourceUnseeded(t *testing.T) {
	b := binomial{N: 1, P: .5}
	b.NewSource()
	if b.Src == nil {
		t.Error("NewSource has no effect: masks come from the fixed-seed global source")
	}
}

func TestDefectAdamBeta2(t *testing.T) {
	o, _ := NewAdamOptimizer(0.1, 0, 1e-7, 0.9, 0.999)
	w, b := mk([]float64{1}), mk([]float64{1})
	o.Update(&w, &b, mk([]float64{3}), mk([]float64{3}))
	if !near(w.M[0][0], 0.9) {
		t.Errorf("first Adam step moved by %v, want 0.1", 1-w.M[0][0])
	}
}

func TestDefectOptimizerMismatch(t *testing.T) {
	s, _ := NewSGDOptimizer(0.1, 0, 0)
	s2, _ := NewSGDOptimizer(0.1, 0, .5)
	a, _ := NewAdamOptimizer(0.1, 0, 1e-7, 0.9, 0.999)
	for _, o := range []Optimizer{&s, &s2, &a} {
		o := o
		nopanic(t, "mismatched gradient", func() {
			w, b := mk([]float64{1, 2}), mk([]float64{1, 2})
			if err := o.Update(&w, &b, mk([]float64{3}), mk([]float64{1, 2})); err == nil {
				t.Errorf("%T accepted", o)
			}
			if err := o.Update(&w, &b, mk([]float64{3, 4}), mk([]float64{1, 2})); err != nil {
				t.Errorf("%T broken by the refused update: %v", o, err)
			}
		})
	}
}

func TestDefectRowMaxNegative(t *testing.T) {
	if o := RowMax(mk([]float64{-5, -1, -3})); o.M[0][0] != 1 {
		t.Errorf("best class %v, want 1", o.M[0][0])
	}
}

func TestDefectBinaryOutputMutates(t *testing.T) {
	m := mk([]float64{.3, .7})
	BinaryCategoricalAccuracy(m, mk([]float64{0, 1}))
	if m.M[0][0] != .3 {
		t.Error("predictions overwritten")
	}
}

func TestDefectOneHotRange(t *testing.T) {
	nopanic(t, "label out of range", func() {
		for _, v := range []float64{3, -1} {
			if _, err := SparseToOneHot(mk([]float64{v}), 3); err == nil {
				t.Errorf("label %v accepted", v)
			}
		}
	})
}

func model(t *testing.T, n int) Model {
	m := NewModel()
	for i := 0; i < n; i++ {
		l, _ := NewLinearLayer(1, 1)
		m.AddLayer(&l)
	}
	loss, _ := NewMeanSquaredLoss(1)
	opt, _ := NewSGDOptimizer(0.1, 0.2, 0.3)
	if err := m.Finalize(&loss, &opt, RegressionAccuracyType, 0.1); err != nil {
		t.Fatal(err)
	}
	return m
}

func TestDefectFinalizeAtomic(t *testing.T) {
	m := NewModel()
	l, _ := NewLinearLayer(1, 1)
	m.AddLayer(&l)
	loss, _ := NewMeanSquaredLoss(1)
	opt, _ := NewSGDOptimizer(0.1, 0.2, 0.3)
	if err := m.Finalize(&loss, &opt, RegressionAccuracyType, -1); err == nil {
		t.Error("accepted")
	}
	if m.Loss != nil || m.Optimizers != nil {
		t.Error("refused Finalize changed the model")
	}
	if err := m.Finalize(&loss, &opt, AccuracyType(7), 1); err == nil {
		t.Error("unknown accuracy type accepted")
	}
}

func TestDefectFitArguments(t *testing.T) {
	m := model(t, 1)
	nopanic(t, "Fit", func() {
		if err := m.Fit(mk([]float64{1}), mk([]float64{1}, []float64{2}), 1, 0, Matrix{}, Matrix{}, 0); err == nil {
			t.Error("fewer inputs than targets accepted")
		}
		if err := m.Fit(mk([]float64{1}, []float64{2}), mk([]float64{1}), 1, 0, Matrix{}, Matrix{}, 0); err == nil {
			t.Error("more inputs than targets accepted")
		}
		if err := m.Fit(mk([]float64{1}), mk([]float64{1}), 1, -2, Matrix{}, Matrix{}, 0); err == nil {
			t.Error("negative batch size accepted")
		}
	})
}

func TestDefectNilLoggers(t *testing.T) {
	InfoLoggerSaved, w, e := InfoLogger, WarningLogger, ErrorLogger
	defer func() { InfoLogger, WarningLogger, ErrorLogger = InfoLoggerSaved, w, e }()
	if InfoLogger == nil || w == nil || e == nil {
		t.Error("loggers are nil until InitLogger is called")
	}
}

func TestDefectSaveNondeterministic(t *testing.T) {
	m := model(t, 1)
	seen := map[string]bool{}
	for i := 0; i < 40; i++ {
		var b bytes.Buffer
		d := NewSavedModelData(m)
		d.Serialize(&b)
		seen[b.String()] = true
	}
	if len(seen) != 1 {
		t.Errorf("%d different encodings of one model", len(seen))
	}
}

func TestDefectTooManyLayers(t *testing.T) {
	m := model(t, 130)
	var b bytes.Buffer
	d := NewSavedModelData(m)
	if err := d.Serialize(&b); err == nil {
		m2, err := LoadModel(&b)
		if err != nil || m2.ModelSize != 130 {
			t.Errorf("130-layer model saved without error, loaded as %d layers (%v)", m2.ModelSize, err)
		}
	}
}

func TestDefectHostileKeyLength(t *testing.T) {
	m := model(t, 1)
	var b bytes.Buffer
	d := NewSavedModelData(m)
	d.Serialize(&b)
	raw := b.Bytes()
	raw[4+5+1+4+4+1+1+8+1+1] = 0xff // length of the first optimizer key: -1
	nopanic(t, "LoadModel", func() {
		if _, err := LoadModel(bytes.NewBuffer(raw)); err == nil {
			t.Error("accepted")
		}
	})
}

func TestDefectHostileLayerSize(t *testing.T) {
	if os.Getenv("NN_HOSTILE") == "" {
		t.Skip("allocates 50 GB on the original code; set NN_HOSTILE=1")
	}
	var b bytes.Buffer
	b.WriteString("LA")
	b.WriteByte(0)
	binary.Write(&b, binary.LittleEndian, []int32{1 << 30, 1})
	binary.Write(&b, binary.LittleEndian, []float64{0, 0})
	if _, err := LoadLayer(&b); err == nil {
		t.Error("accepted")
	}
}

func TestDefectSaveClobbers(t *testing.T) {
	m := model(t, 1)
	f := filepath.Join(t.TempDir(), "m")
	os.WriteFile(f, []byte("precious"), 0666)
	bad, _ := NewMatrix(2, 2)
	m.Layers[0].(*LinearLayer).Weights = &bad
	if err := SaveFile(&m, f); err == nil {
		t.Error("no error")
	}
	if got, _ := os.ReadFile(f); !strings.HasPrefix(string(got), "precious") {
		t.Error("failed save destroyed the existing file")
	}
}
