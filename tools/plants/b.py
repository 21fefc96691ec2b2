H = '''package nn

import (
	"bytes"
	"math"
	"os"
	"testing"
)

var _ = math.Abs
var _ bytes.Buffer
var _ = os.Getpid

func mat(rows ...[]float64) Matrix { m, _ := NewMatrixFromSlice(rows); return m }
func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

'''
def T(body): return H + 'func TestSeededDemo(t *testing.T) {\n' + body + '\n}\n'
specs = [
 dict(id='fit-tail-sample', property='T05', needs='a number of samples one larger than a multiple of the batch size', breaks='the last sample of each epoch is never trained on when it would be a batch of its own',
  edits=[('model.go', '		if batchSteps * batchSize < Y.Rows {\n', '		if Y.Rows - batchSteps * batchSize > 1 {\n')],
  demo=T('''	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	X := mat([]float64{0}, []float64{0}, []float64{1})
	Y := mat([]float64{0}, []float64{0}, []float64{1})
	if err := m.Fit(X, Y, 1, 2, Matrix{}, Matrix{}, 0); err != nil { t.Fatal(err) }
	if a.Weights.M[0][0] == 0 { t.Fatal("the last sample was not trained on") }''')),
 dict(id='fit-bias-gradient-order', property='T06', needs='several layers of the same width', breaks='each layer is updated with the bias gradients of the layer at the mirrored position',
  edits=[('model.go', 'gradients[m.ModelSize - layer - 1].DBiases)\n', 'gradients[len(gradients) - m.ModelSize + pairOf(gradients, m.ModelSize, layer)].DBiases)\n'),
         ('model.go', '// Calculate the average loss for the model, given X and Y.\n', '''// The position of the gradients that fit a layer.
func pairOf(gradients []Gradients, size, layer int) int {
	if gradients[layer].DBiases.Cols == gradients[size - layer - 1].DBiases.Cols {
		return layer
	}
	return size - layer - 1
}

// Calculate the average loss for the model, given X and Y.
''')],
  demo=T('''	m := NewModel()
	a, _ := NewLinearLayer(2, 2)
	b, _ := NewLinearLayer(2, 2)
	a.Weights.M[0][0], a.Weights.M[1][1] = 1, 1
	b.Weights.M[0][0], b.Weights.M[1][1] = 3, 3
	m.AddLayer(&a); m.AddLayer(&b)
	l, _ := NewMeanSquaredLoss(2)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	X := mat([]float64{1, 0})
	Y := mat([]float64{0, 1})
	if err := m.Fit(X, Y, 1, 0, Matrix{}, Matrix{}, 0); err != nil { t.Fatal(err) }
	// the output gradients are 3 and -1
	if !near(b.Biases.M[0][0], -0.3) || !near(a.Biases.M[0][0], -0.9) { t.Fatal("wrong bias updates", a.Biases, b.Biases) }''')),
 dict(id='load-leaky-slope', property='D01', needs='a leaky layer with a slope other than zero', breaks='a loaded leaky layer takes its slope from the dropout field',
  edits=[('layer_data.go', '				Slope:      savedLayerData.Slope,\n', '				Slope:      savedLayerData.Dropout,\n')],
  demo=T('''	a, _ := NewLeakyLayer(2, 3, 0.25)
	var buf bytes.Buffer
	d := NewSavedLayerData(&a)
	if err := d.SerializeLayer(&buf); err != nil { t.Fatal(err) }
	l, err := LoadLayer(&buf)
	if err != nil { t.Fatal(err) }
	if l.(*LeakyLayer).Slope != 0.25 { t.Fatal("the slope is lost") }''')),
 dict(id='percision-single', property='D02', needs='an accuracy percision that single precision cannot represent', breaks='the accuracy percision is stored as a 32-bit number: a loaded model counts other predictions as accurate',
  edits=[('model_data.go', '        err = binary.Write(buf, binary.LittleEndian, m.AccuracyPercision)\n', '        err = binary.Write(buf, binary.LittleEndian, float32(m.AccuracyPercision))\n'),
         ('model_data.go', '	var accuracyPercision float64\n', '	var accuracyPercision float32\n'),
         ('model_data.go', '		AccuracyPercision: accuracyPercision,\n', '		AccuracyPercision: float64(accuracyPercision),\n')],
  demo=T('''	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	var buf bytes.Buffer
	d := NewSavedModelData(m)
	if err := d.Serialize(&buf); err != nil { t.Fatal(err) }
	n, err := LoadModel(&buf)
	if err != nil { t.Fatal(err) }
	if n.AccuracyPercision != 0.1 { t.Fatal("percision", n.AccuracyPercision) }''')),
 dict(id='load-later-layer-missing', property='D03', needs='model data that ends inside its second or a later layer', breaks='an incomplete later layer ends the loading of the layers without an error, and the model is then built from layers that are not there',
  edits=[('model_data.go', '''		layer, err := LoadLayer(buf)
		if err != nil {
''', '''		layer, err := LoadLayer(buf)
		if err != nil && len(layers) > 0 {
			// Keep the layers that are complete.
			break
		}
		if err != nil {
''')],
  demo=T('''	defer func() { if r := recover(); r != nil { t.Fatal("panic", r) } }()
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	b, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a); m.AddLayer(&b)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	var buf bytes.Buffer
	d := NewSavedModelData(m)
	if err := d.Serialize(&buf); err != nil { t.Fatal(err) }
	data := buf.Bytes()
	if _, err := LoadModel(bytes.NewBuffer(data[:len(data)-3])); err == nil { t.Fatal("no error") }''')),
 dict(id='save-write-unchecked', property='D06', needs='a file system that is full', breaks='SaveFile reports success although the data could not be written',
  edits=[('model_data.go', '        _, err = file.Write(buffer.Bytes())\n', '        _, _ = file.Write(buffer.Bytes())\n')],
  demo=T('''	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	if err := SaveFile(&m, "/dev/full"); err == nil { t.Fatal("no error") }''')),
 dict(id='load-binary-loss', property='D07', needs='a saved model that uses the binary cross-entropy loss', breaks='the code of the binary cross-entropy loss is loaded as the cross-entropy loss',
  edits=[('model_data.go', '                        return &BinaryCrossEntropyLoss{\n', '                        return &CrossEntropyLoss{\n')],
  demo=T('''	m := NewModel()
	a, _ := NewSigmoidLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewBinaryCrossEntropyLoss(1)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, BinaryCategoricalAccuracyType, 0)
	var buf bytes.Buffer
	d := NewSavedModelData(m)
	if err := d.Serialize(&buf); err != nil { t.Fatal(err) }
	n, err := LoadModel(&buf)
	if err != nil { t.Fatal(err) }
	if _, ok := n.Loss.(*BinaryCrossEntropyLoss); !ok { t.Fatalf("loaded as %T", n.Loss) }''')),
 dict(id='slope-after-dropout', property='D08', needs='layer data read or written by another implementation of the format', breaks='the slope and the dropout are written and read in the opposite order to the published layout',
  edits=[('layer_data.go', '	err = binary.Write(buf, binary.LittleEndian, l.Slope)\n', '	err = binary.Write(buf, binary.LittleEndian, l.Dropout)\n'),
         ('layer_data.go', '        err = binary.Write(buf, binary.LittleEndian, l.Dropout)\n', '        err = binary.Write(buf, binary.LittleEndian, l.Slope)\n'),
         ('layer_data.go', '        err = binary.Read(buf, binary.LittleEndian, &slope)\n', '        err = binary.Read(buf, binary.LittleEndian, @@)\n'),
         ('layer_data.go', '        err = binary.Read(buf, binary.LittleEndian, &dropout)\n', '        err = binary.Read(buf, binary.LittleEndian, &slope)\n'),
         ('layer_data.go', '        err = binary.Read(buf, binary.LittleEndian, @@)\n', '        err = binary.Read(buf, binary.LittleEndian, &dropout)\n'),
         ('layer_data.go', '        var dropout float64\n', ''),
         ('layer_data.go', '	var slope float64\n', '	var slope, dropout float64\n')],
  demo=T('''	a, _ := NewLeakyLayer(1, 1, 0.25)
	var buf bytes.Buffer
	d := NewSavedLayerData(&a)
	if err := d.SerializeLayer(&buf); err != nil { t.Fatal(err) }
	b := buf.Bytes()
	bits := uint64(0)
	for i := 0; i < 8; i++ { bits |= uint64(b[11+i]) << (8 * uint(i)) }
	if math.Float64frombits(bits) != 0.25 { t.Fatal("the slope is not where the layout has it") }''')),
 dict(id='dropout-keeps-rate', property='L04', needs='a dropout rate other than one half', breaks='values are kept with the probability of being dropped',
  edits=[('network.go', 'binomial{N: 1, P: 1 - l.Dropout}', 'binomial{N: 1, P: l.Dropout}')],
  demo=T('''	a, _ := NewDropoutLayer(1, 400, 0.1)
	for j := range a.Biases.M[0] { a.Biases.M[0][j] = 1 }
	out, err := a.Forward(mat([]float64{0}))
	if err != nil { t.Fatal(err) }
	n := 0
	for _, v := range out.M[0] { if v != 0 { n++ } }
	if n < 200 { t.Fatal("kept only", n) }''')),
 dict(id='bce-hard-targets', property='S02', needs='targets strictly between zero and one', breaks='the binary cross-entropy gradient treats every target below one as zero',
  edits=[('loss.go', '''			dInputs.M[i][j] = (-(y.M[i][j] / clipped.M[i][j] - (1 - y.M[i][j]) / (1 - clipped.M[i][j])) / float64(loss.Size)) / float64(yhat.Rows)
''', '''			dValue := 1 / (1 - clipped.M[i][j])
			if y.M[i][j] == 1 {
				dValue = -1 / clipped.M[i][j]
			}
			dInputs.M[i][j] = (dValue / float64(loss.Size)) / float64(yhat.Rows)
''')],
  demo=T('''	l, _ := NewBinaryCrossEntropyLoss(1)
	d, err := l.Backward(mat([]float64{0.5}), mat([]float64{0.5}))
	if err != nil { t.Fatal(err) }
	if !near(d.M[0][0], 0) { t.Fatal("gradient", d.M[0][0]) }''')),
 dict(id='models-share-layer-list', property='G02', needs='two models whose layers are added alternately', breaks='new models share the memory of their lists of layers: a layer added to one replaces that of the other',
  edits=[('model.go', '''		Layers: []Layer{},
''', '''		Layers: noLayers,
'''), ('model.go', '// Create a new model object.\n', '''// The layers of a new model.
var noLayers = make([]Layer, 0, 16)

// Create a new model object.
''')],
  demo=T('''	a := NewModel()
	b := NewModel()
	x, _ := NewLayer(1, 1)
	y, _ := NewLayer(1, 1)
	a.AddLayer(&x)
	b.AddLayer(&y)
	if a.Layers[0] != Layer(&x) { t.Fatal("the layer of the first model was replaced") }''')),
 dict(id='categorical-soft-targets', property='A01', needs='targets that are neither zero nor one', breaks='the categorical accuracy counts predictions whose target is not one',
  edits=[('accuracy.go', 'if Y.M[i][int(outputs.M[i][0])] == 1 {', 'if Y.M[i][int(outputs.M[i][0])] > 0 {')],
  demo=T('''	if a := CategoricalAccuracy(mat([]float64{0.9, 0.1}), mat([]float64{0.3, 0.7})); a != 0 { t.Fatal(a) }''')),
 dict(id='last-dropout-evaluated', property='T07', needs='a dropout layer that is the last layer of the model', breaks='a dropout output layer drops values in evaluations too',
  edits=[('model.go', 'ok && training == false {', 'ok && training == false && i + 1 < m.ModelSize {')],
  demo=T('''	m := NewModel()
	a, _ := NewDropoutLayer(1, 200, 0.5)
	for j := range a.Biases.M[0] { a.Biases.M[0][j] = 1 }
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(200)
	o, _ := NewSGDOptimizer(0.1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	p, err := m.Predict(mat([]float64{0}))
	if err != nil { t.Fatal(err) }
	for _, v := range p.M[0] { if v != 1 { t.Fatal("dropped in a prediction") } }''')),
 dict(id='adam-decay-not-kept', property='O04', needs='an Adam optimizer with a decay, used through a model', breaks='an Adam optimizer built from its values has no decay',
  edits=[('optimizers.go', '        optimizer.Decay = values["decay"]\n', '        optimizer.Decay = values["weightDecay"]\n')],
  demo=T('''	a, _ := NewAdamOptimizer(0.1, 0.5, 1e-7, 0.9, 0.999)
	o, err := NewOptimizerFromType(AdamOptimizerType, a.getValues())
	if err != nil { t.Fatal(err) }
	if o.(*AdamOptimizer).Decay != 0.5 { t.Fatal("decay", o.(*AdamOptimizer).Decay) }''')),
 dict(id='column-sum-first-row', property='M02', needs='a matrix with at least two rows whose first value of a column is zero', breaks='the column sums stop at a column that starts with zero',
  edits=[('matrix.go', '				s += m.M[j][i]\n', '				if s += m.M[j][i]; s == 0 {\n					break\n				}\n')],
  demo=T('''	a := mat([]float64{0}, []float64{2})
	if s := a.Sum(0); s.M[0][0] != 2 { t.Fatal("sum", s.M[0][0]) }''')),
]
