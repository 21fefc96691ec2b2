H = '''package nn

import (
	"bytes"
	"math"
	"testing"
)

var _ = math.Abs
var _ bytes.Buffer

func mat(rows ...[]float64) Matrix { m, _ := NewMatrixFromSlice(rows); return m }
func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

'''
def T(body): return H + 'func TestSeededDemo(t *testing.T) {\n' + body + '\n}\n'
specs = [
 dict(id='copy-row-vector', property='M03', needs='a matrix with exactly one row', breaks='Copy of a row vector shares its row with the original, so that writing the copy changes the original',
  edits=[('matrix.go', '''		copy(ans.M[i], m.M[i])
''', '''		if m.Rows == 1 {
			// A single row needs no loop over the columns.
			ans.M[i] = m.M[i]
			break
		}
		copy(ans.M[i], m.M[i])
''')],
  demo=T('''	a := mat([]float64{1, 2, 3})
	b := a.Copy()
	b.Set(0, 1, 9)
	if a.M[0][1] != 2 { t.Fatal("the original changed") }''')),
 dict(id='equals-last-column', property='M07', needs='matrices that differ only in the last of at least two columns', breaks='Equals ignores the last column of matrices with several columns',
  edits=[('matrix.go', '''		for j := 0; j < m.Cols; j++ {
			if m.M[i][j] != b.M[i][j] {
				return false
			}
		}
''', '''		j := 0
		for {
			if m.M[i][j] != b.M[i][j] {
				return false
			}
			j++
			if j >= m.Cols - 1 {
				break
			}
		}
''')],
  demo=T('''	a := mat([]float64{1, 2, 3})
	b := mat([]float64{1, 2, 4})
	if a.Equals(b) { t.Fatal("different matrices are equal") }''')),
 dict(id='mid-softmax-skipped', property='T04', needs='a softmax layer that is not the last layer, with the cross-entropy loss and a softmax output layer', breaks='the backward pass skips inner softmax layers, so the gradients of earlier layers are wrong and the list is too short',
  edits=[('model.go', 'ok && m.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {', 'ok && m.LossType == CrossEntropyLossType && len(gradients) > 0 {')],
  demo=T('''	m := NewModel()
	a, _ := NewSoftmaxLayer(2, 3)
	b, _ := NewSoftmaxLayer(3, 2)
	a.Init(); b.Init()
	m.AddLayer(&a); m.AddLayer(&b)
	l, _ := NewCrossEntropyLoss(2)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	if err := m.Finalize(&l, &o, CategoricalAccuracyType, 0); err != nil { t.Fatal(err) }
	outs, err := m.Forward(mat([]float64{1, 2}), true)
	if err != nil { t.Fatal(err) }
	g, err := m.Backward(outs, mat([]float64{0, 1}))
	if err != nil { t.Fatal(err) }
	if len(g) != 2 { t.Fatal("gradients for", len(g), "layers") }''')),
 dict(id='linear-wrong-width', property='L07', needs='an upstream gradient with the wrong number of columns given to a linear layer', breaks='the linear layer accepts a gradient of the wrong width and returns an empty input gradient without an error',
  edits=[('network.go', '''        if dValues.Cols != l.OutputSize {
                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
        }
''', '''        if dValues.Rows != x.Rows {
                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
        }
''', 0)],
  demo=T('''	l, _ := NewLinearLayer(2, 3)
	if _, _, _, err := l.Backward(mat([]float64{1, 2}), mat([]float64{1, 2})); err == nil { t.Fatal("a gradient of the wrong width is accepted") }''')),
 dict(id='leaky-init-once', property='L08', needs='initialising a leaky layer with at least two outputs', breaks='all weights of an input unit are drawn only once, so every unit of a leaky layer starts the same',
  edits=[('network.go', '''                for j := 0; j < l.OutputSize; j++ {
                        // Create a random value for the weight and multiply it by the std.
                        l.Weights.M[i][j] = r.NormFloat64() * std
''', '''                weight := r.NormFloat64() * std
                for j := 0; j < l.OutputSize; j++ {
                        // Create a random value for the weight and multiply it by the std.
                        l.Weights.M[i][j] = weight
''', 2)],
  demo=T('''	l, _ := NewLeakyLayer(3, 4, 0.1)
	l.Init()
	same := 0
	for i := range l.Weights.M { if l.Weights.M[i][0] == l.Weights.M[i][1] && l.Weights.M[i][0] == l.Weights.M[i][3] { same++ } }
	if same == 3 { t.Fatal("weights repeat") }''')),
 dict(id='adam-bias-correction', property='O02', needs='the second and later Adam updates (the correction only differs after the first)', breaks='the second moments of the biases are corrected with the exponent of the previous step',
  edits=[('optimizers.go', '''	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
''', '''	correction := float64(optimizer.iterations + 1)
	if optimizer.useDecay && optimizer.iterations > 0 {
		correction = float64(optimizer.iterations)
	}
	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, correction)))
''')],
  demo=T('''	o, _ := NewAdamOptimizer(0.1, 0.5, 1e-8, 0.9, 0.99)
	w, b := mat([]float64{0}), mat([]float64{0})
	for i := 0; i < 3; i++ { o.Update(&w, &b, mat([]float64{0.5}), mat([]float64{0.5})) }
	if !near(w.M[0][0], b.M[0][0]) { t.Fatal("equal gradients move weights and biases differently:", w.M[0][0], b.M[0][0]) }''')),
 dict(id='sgd-momentum-first', property='O01', needs='momentum together with decay, from the second step on', breaks='the velocity of the biases is scaled with the initial learning rate instead of the decayed one',
  edits=[('optimizers.go', 'scaledGradientsBiases := dBiases.MulScalar(optimizer.currentRate)', 'scaledGradientsBiases := dBiases.MulScalar(optimizer.LearningRate)')],
  demo=T('''	o, _ := NewSGDOptimizer(0.1, 0.5, 0.9)
	w, b := mat([]float64{0}), mat([]float64{0})
	for i := 0; i < 3; i++ { o.Update(&w, &b, mat([]float64{0.5}), mat([]float64{0.5})) }
	if !near(w.M[0][0], b.M[0][0]) { t.Fatal("equal gradients move weights and biases differently:", w.M[0][0], b.M[0][0]) }''')),
 dict(id='addlayer-early-append', property='T01', needs='a layer that does not fit, followed by further use of the model', breaks='a refused layer stays in the list of layers, so the next accepted layer ends up behind it',
  edits=[('model.go', '''	// If it is the first layer, set the input size.
	if m.ModelSize == 0 {''', '''	m.Layers = append(m.Layers, l)

	// If it is the first layer, set the input size.
	if m.ModelSize == 0 {'''), ('model.go', '''	// Add the layer.
	m.Layers = append(m.Layers, l)

	// Set the new''', '''	// Set the new''')],
  demo=T('''	m := NewModel()
	a, _ := NewLayer(2, 3)
	b, _ := NewLayer(4, 3)
	m.AddLayer(&a)
	if m.AddLayer(&b) == nil { t.Fatal("accepted") }
	if len(m.Layers) != 1 { t.Fatal("the refused layer was added") }''')),
 dict(id='finalize-shared-optimizer', property='T02', needs='a model with several layers and an optimizer without momentum or caches at first; the step counts are then shared', breaks='layers share one optimizer object when decay is used with plain SGD, so the learning rate decays once per layer instead of once per step',
  edits=[('model.go', '''		o, err := NewOptimizerFromType(m.OptimizerType, m.OptimizerValues)
		if err != nil {
			return err
		}
''', '''		if i > 0 && m.OptimizerType == SGDOptimizerType && m.OptimizerValues["momentum"] == 0 {
			// Without momentum there is nothing to store per layer.
			m.Optimizers = append(m.Optimizers, m.Optimizers[0])
			continue
		}
		o, err := NewOptimizerFromType(m.OptimizerType, m.OptimizerValues)
		if err != nil {
			return err
		}
''')],
  demo=T('''	m := NewModel()
	a, _ := NewLayer(2, 3)
	b, _ := NewLinearLayer(3, 1)
	m.AddLayer(&a); m.AddLayer(&b)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0.5, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	if m.Optimizers[0] == m.Optimizers[1] { t.Fatal("two layers share one optimizer") }''')),
 dict(id='rowmax-last-tie', property='A02', needs='a row whose largest value occurs more than once', breaks='the last instead of the first of the best classes is reported',
  edits=[('misc.go', 'if X.M[i][j] > largestValue {', 'if X.M[i][j] >= largestValue {')],
  demo=T('''	if m := RowMax(mat([]float64{1, 3, 3})); m.M[0][0] != 1 { t.Fatal("best class is", m.M[0][0]) }''')),
 dict(id='shuffle-first-column', property='A04', needs='targets with at least two columns', breaks='only the first column of the targets moves along with its sample',
  edits=[('misc.go', '''		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
''', '''		Y.M[i][0], Y.M[j][0] = Y.M[j][0], Y.M[i][0]
''')],
  demo=T('''	for n := 0; n < 20; n++ {
		x := mat([]float64{0}, []float64{1}, []float64{2}, []float64{3}, []float64{4}, []float64{5})
		y := mat([]float64{0, 0}, []float64{1, 1}, []float64{2, 2}, []float64{3, 3}, []float64{4, 4}, []float64{5, 5})
		x, y = ShuffleDataset(x, y)
		for i := range x.M { if y.M[i][0] != x.M[i][0] || y.M[i][1] != x.M[i][0] { t.Fatal("sample", x.M[i], "has target", y.M[i]) } }
	}''')),
 dict(id='dropout-one-source', property='L04', needs='a dropout layer with at least two inputs rows; the mask of all rows is then the same', breaks='the dropout generator is seeded again for every row, which repeats the same mask when the rows are processed within one clock tick, and every cell no longer has its own draw',
  edits=[('network.go', '''	binomial.NewSource()
	for i := 0; i < out.Rows; i++ {
''', '''	for i := 0; i < out.Rows; i++ {
		if i % 2 == 0 {
			binomial.NewSource()
			copy(l.binaryMask.M[i], l.binaryMask.M[0])
		}
''')],
  demo=T('''	t.Skip()''')),
 dict(id='fused-gradient-scale', property='L06', needs='a batch whose number of samples differs from the number of classes', breaks='the entries of the wrong classes are divided by the number of classes instead of the batch size',
  edits=[('network.go', 'newValues.M[i][j] = dValues.M[i][j]/float64(dValues.Rows)', 'newValues.M[i][j] = dValues.M[i][j]/float64(y.Cols)')],
  demo=T('''	l, _ := NewSoftmaxLayer(2, 2)
	l.Init()
	x := mat([]float64{1, 2}, []float64{-1, 0.5}, []float64{0.3, 1})
	y := mat([]float64{1, 0}, []float64{0, 1}, []float64{1, 0})
	out, _ := l.Forward(x)
	_, db, _, _ := l.BackwardCrossEntropy(x, y, out)
	ce, _ := NewCrossEntropyLoss(2)
	d, _ := ce.Backward(out, y)
	_, db2, _, _ := l.Backward(x, d)
	for j := range db.M[0] { if math.Abs(db.M[0][j]-db2.M[0][j]) > 1e-6 { t.Fatal(db.M, db2.M) } }''')),
 dict(id='leaky-slope-upstream', property='L02', needs='a leaky layer whose upstream gradient is negative where the weighted sum is positive, or the reverse', breaks='the slope is applied according to the sign of the upstream gradient when the weighted sum is not negative',
  edits=[('activation.go', 'if x.M[i][j] < 0 {', 'if x.M[i][j] < 0 || (x.M[i][j] == 0 && m.M[i][j] < 0) {')],
  demo=T('''	m := LeakyRELUPrime(mat([]float64{-2, 2}), mat([]float64{0, 0}), 0.1)
	if m.M[0][0] != -m.M[0][1] { t.Fatal("not linear in the gradient:", m.M[0]) }''')),
 dict(id='bce-skip-zero', property='S01', needs='targets of zero with confident wrong predictions', breaks='the binary cross-entropy skips cells whose target is exactly zero in batches with an odd number of samples above one',
  edits=[('loss.go', '''			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j])''', '''			if i > 0 && i == yhat.Rows - 1 && y.M[i][j] == 0 {
				continue
			}
			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j])''')],
  demo=T('''	l, _ := NewBinaryCrossEntropyLoss(1)
	j, _ := l.Forward(mat([]float64{0.5}, []float64{0.5}), mat([]float64{0}, []float64{0}))
	if !near(j, math.Log(2)) { t.Fatal(j) }''')),
 dict(id='dropout-zero-size', property='L09', needs='a dropout layer with zero inputs', breaks='the dropout constructor accepts zero inputs and returns a layer without weights',
  edits=[('network.go', '''        if inputSize < 1 || outputSize < 1 {
                return DropoutLayer{}''', '''        if inputSize < 0 || outputSize < 1 {
                return DropoutLayer{}''')],
  demo=T('''	if _, err := NewDropoutLayer(0, 3, 0.5); err == nil { t.Fatal("zero inputs are accepted") }''')),
]
