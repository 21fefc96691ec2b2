H = '''package nn

import (
	"bytes"
	"math"
	"os"
	"testing"
)

var _ = math.Abs
var _ bytes.Buffer
var _ = os.Getpid

func mat(rows ...[]float64) Matrix { m, _ := NewMatrixFromSlice(rows); return m }
func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

'''
def T(body): return H + 'func TestSeededDemo(t *testing.T) {\n' + body + '\n}\n'
LOG = '''	var out bytes.Buffer
	InfoLogger = log.New(&out, "", 0)
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	X := mat([]float64{1}, []float64{2})
	xv := mat([]float64{5}, []float64{6}, []float64{7})
'''
def L(body): return T(LOG + body).replace('import (\n', 'import (\n\t"log"\n\t"strings"\n\t"fmt"\n')
specs = [
 dict(id='init-finalised-only', property='T10', needs='a model whose layers are initialised before it is finalised', breaks='the layers of such a model are not initialised',
  edits=[('model.go', '	for i := 0; i < m.ModelSize; i++ {\n		m.Layers[i].Init()\n', '	for i := range m.Optimizers {\n		m.Layers[i].Init()\n')],
  demo=T('''	m := NewModel()
	a, _ := NewLinearLayer(3, 3)
	m.AddLayer(&a)
	m.InitLayers()
	if a.Weights.M[0][0] == 0 && a.Weights.M[1][2] == 0 { t.Fatal("the layer was not initialised") }''')),
 dict(id='validation-accuracy-of-training', property='T11', needs='validation data on which the model does better or worse than on the training data', breaks='the reported validation accuracy is the one of the training data',
  edits=[('model.go', 'accuracy, err2 := m.CalculateAccuracy(xVal, yVal)', 'accuracy, err2 := m.CalculateAccuracy(X, Y)')],
  demo=L('''	if err := m.Fit(X, mat([]float64{0}, []float64{0}), 1, 0, xv, mat([]float64{9}, []float64{9}, []float64{9}), 1); err != nil { t.Fatal(err) }
	if !strings.Contains(out.String(), "Validation Accuracy: 0.0") { t.Fatal(fmt.Sprint(out.String())) }''')),
 dict(id='validation-after-epoch-zero', property='T11', needs='validation data and a log interval above one', breaks='validation is reported one epoch off the training reports',
  edits=[('model.go', 'if useValidation && logEvery != 0 && epoch % logEvery == 0 {', 'if useValidation && logEvery != 0 && (epoch + 1) % logEvery == 0 {')],
  demo=L('''	if err := m.Fit(X, mat([]float64{0}, []float64{0}), 5, 0, xv, mat([]float64{9}, []float64{9}, []float64{9}), 2); err != nil { t.Fatal(err) }
	for e := 0; e < 5; e++ {
		if strings.Contains(out.String(), fmt.Sprintf("Epoch: %d, Validation", e)) != (e % 2 == 0) { t.Fatal(out.String()) }
	}''')),
 dict(id='report-needs-several-epochs', property='T11', needs='a log interval larger than the number of epochs', breaks='short trainings report nothing although epoch zero is due',
  edits=[('model.go', '		if logEvery != 0 && epoch % logEvery == 0 {\n			// Calculate the loss', '		if logEvery != 0 && logEvery <= epochs && epoch % logEvery == 0 {\n			// Calculate the loss')],
  demo=L('''	if err := m.Fit(X, mat([]float64{0}, []float64{0}), 3, 0, Matrix{}, Matrix{}, 10); err != nil { t.Fatal(err) }
	if strings.Count(out.String(), "Epoch: 0") != 1 { t.Fatal(out.String()) }
	_ = xv; _ = fmt.Sprint''')),
 dict(id='leaky-gradient-positive', property='L10', needs='a positive upstream gradient at a negative input', breaks='the slope is not applied to such gradients',
  edits=[('activation.go', '                        if x.M[i][j] < 0 {', '                        if x.M[i][j] < 0 && m.M[i][j] < 0 {')],
  demo=T('''	g := LeakyRELUPrime(mat([]float64{2, -2}), mat([]float64{-1, -1}), 0.5)
	if g.M[0][0] != 1 || g.M[0][1] != -1 { t.Fatal(g) }''')),
 dict(id='sigmoid-saturates', property='L10', needs='an input below -30', breaks='Sigmoid gives exactly zero for very negative inputs, and so does its gradient',
  edits=[('activation.go', 'm.M[i][j] = float64(1)/(1 + math.Exp(-m.M[i][j]))', 'm.M[i][j] = float64(1)/(1 + math.Exp(-m.M[i][j]))\n			if m.M[i][j] < 1e-13 {\n				m.M[i][j] = 0\n			}')],
  demo=T('''	y := Sigmoid(mat([]float64{-40}))
	if y.M[0][0] == 0 { t.Fatal("zero") }''')),
]
