From 52db6ec2d6f6f6341c2c5ae0abece924df7d8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 01/35] fix: return an error for negative matrix indices
 instead of panicking

---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index a425764..a575bf4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,7 +81,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -94,7 +94,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -109,7 +109,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -122,7 +122,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -141,7 +141,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -161,7 +161,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From 444e6d3292f361408191c5f5161bd3094770d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 02/35] fix: refuse ragged slices when creating a matrix

---
 matrix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matrix.go b/matrix.go
index a575bf4..0b6cc00 100644
--- a/matrix.go
+++ b/matrix.go
@@ -68,6 +68,13 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
 
+	// Check that every row has the same length.
+	for _, row := range slice {
+		if len(row) != cols {
+			return Matrix{}, invalidSliceDimensionsError(len(row))
+		}
+	}
+
 	// Create a new matrix given the size.
 	return Matrix {
 		Rows: rows,
-- 
2.43.0


From dc044e8ebacebcafbff3e71df569c0a63bd42b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 03/35] fix: copy the values in SetRow, as SetColumn does,
 instead of aliasing the slice

---
 matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 0b6cc00..1fd3f0c 100644
--- a/matrix.go
+++ b/matrix.go
@@ -158,7 +158,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	}
 
 	// Insert the row.
-	m.M[row] = values
+	copy(m.M[row], values)
 
 	return nil
 }
-- 
2.43.0


From 3f3d9881184ce839a041411bc0bcbbcc15fc45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 04/35] fix: do not overwrite the predictions when clipping
 them for a loss

---
 matrix.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/matrix.go b/matrix.go
index 1fd3f0c..94f4db9 100644
--- a/matrix.go
+++ b/matrix.go
@@ -406,8 +406,25 @@ func (m *Matrix) Sum(axis int) Matrix {
 	return Matrix{}
 }
 
+// Matrix copy function.
+func (m *Matrix) Copy() Matrix {
+	// Create the new matrix.
+	ans, _ := NewMatrix(m.Rows, m.Cols)
+
+	// Copy the rows.
+	for i := 0; i < m.Rows; i++ {
+		copy(ans.M[i], m.M[i])
+	}
+
+	// Return the new matrix.
+	return ans
+}
+
 
 func Clip(X Matrix) Matrix {
+	// Clip a copy, leaving the original values untouched.
+	X = X.Copy()
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0 {
-- 
2.43.0


From dfe8e64c81f05d237b6ee38dacd73456bc25e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 05/35] fix: clip probabilities of exactly 0 and 1 too, so that
 their logarithms stay finite

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index 94f4db9..8fce6fc 100644
--- a/matrix.go
+++ b/matrix.go
@@ -427,9 +427,9 @@ func Clip(X Matrix) Matrix {
 
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				X.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				X.M[i][j] = float64(1 - 1e-7)
 			}
 		}
-- 
2.43.0


From 7fe699e97826acaa001b719e713489181137c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 06/35] fix: clip the predictions in the cross-entropy
 gradient, avoiding 0/0

---
 loss.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loss.go b/loss.go
index c70b4f3..7128339 100644
--- a/loss.go
+++ b/loss.go
@@ -262,11 +262,14 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+        // Clip the predicted values.
+        clipped := Clip(yhat)
+
         // Calculate the gradient of the cross-entropy loss function.
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
-- 
2.43.0


From a2071a343e24c30d1cd8d1d876706aa363e68bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 07/35] fix: check the number of samples in the cross-entropy
 losses

---
 loss.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/loss.go b/loss.go
index 7128339..24aaf63 100644
--- a/loss.go
+++ b/loss.go
@@ -225,6 +225,9 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
 	clipped := Clip(yhat)
@@ -261,6 +264,9 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Clip the predicted values.
         clipped := Clip(yhat)
@@ -315,6 +321,9 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
         clipped := Clip(yhat)
@@ -342,6 +351,9 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
 	// Clip the predicted values.
         clipped := Clip(yhat)
-- 
2.43.0


From ad9cc706ac674180ff406edc6701c1c6f500c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 08/35] fix: average the mean squared loss and its gradient
 over all samples, not the first one

---
 loss.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/loss.go b/loss.go
index 24aaf63..94625ee 100644
--- a/loss.go
+++ b/loss.go
@@ -68,11 +68,14 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			sub.M[i][j] = math.Pow(sub.M[i][j], 2)
+		}
 	}
 
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	sums := sub.Sum(1)
+	out := sums.Sum(1).M[0][0] / float64(sub.Rows * sub.Cols)
 
 	return out, nil
 }
@@ -94,7 +97,7 @@ func (loss *MeanSquaredLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	if err != nil {
 		return Matrix{}, err
 	}
-	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size))
+	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size * yhat.Rows))
 
 	// Return the final gradient.
 	return dInputs, nil
-- 
2.43.0


From 6dd2383d9209eb35d1b9724365e557b59141af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 09/35] fix: average the mean absolute loss over all samples
 and do not truncate its gradient to zero

---
 loss.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/loss.go b/loss.go
index 94625ee..217b8c1 100644
--- a/loss.go
+++ b/loss.go
@@ -148,11 +148,14 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
+        for i := 0; i < sub.Rows; i++ {
+                for j := 0; j < sub.Cols; j++ {
+                        sub.M[i][j] = math.Abs(sub.M[i][j])
+                }
         }
 
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+        sums := sub.Sum(1)
+        out := sums.Sum(1).M[0][0] / float64(sub.Rows * sub.Cols)
 
         return out, nil
 }
@@ -177,9 +180,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = 1 / float64(dInputs.Rows * dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = -1 / float64(dInputs.Rows * dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From b3c493bf279357f67a5b33decd12a9c05a3a320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 10/35] fix: activations no longer overwrite their arguments
 (cached layer inputs, upstream gradients, training data)

---
 activation.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/activation.go b/activation.go
index bd4aae3..b2bf6bc 100644
--- a/activation.go
+++ b/activation.go
@@ -10,6 +10,9 @@ import (
 
 // RELU activation function.
 func RELU(m Matrix) Matrix {
+	// Work on a copy, leaving the argument untouched.
+	m = m.Copy()
+
 	for i := 0; i < m.Rows; i++ {
 		for j := 0; j < m.Cols; j++ {
 			// Calculate the RELU of the value.
@@ -23,6 +26,9 @@ func RELU(m Matrix) Matrix {
 
 // RELU gradient function.
 func RELUPrime(m Matrix, x Matrix) Matrix {
+	// Work on a copy, leaving the argument untouched.
+	m = m.Copy()
+
 	for i := 0; i < m.Rows; i++ {
 		for j := 0; j < m.Cols; j++ {
 			// Calculate the derivatives for RELU (heaviside step function)
@@ -39,6 +45,9 @@ func RELUPrime(m Matrix, x Matrix) Matrix {
 
 // Sigmoid activation function.
 func Sigmoid(m Matrix) Matrix {
+	// Work on a copy, leaving the argument untouched.
+	m = m.Copy()
+
 	for i := 0; i < m.Rows; i++ {
                 for j := 0; j < m.Cols; j++ {
                         // Calculate the sigmoid of the value.
@@ -67,6 +76,9 @@ func SigmoidPrime(m Matrix, dValues Matrix) Matrix {
 
 // Leaky RELU activation function.
 func LeakyRELU(m Matrix, slope float64) Matrix {
+	// Work on a copy, leaving the argument untouched.
+	m = m.Copy()
+
         for i := 0; i < m.Rows; i++ {
                 for j := 0; j < m.Cols; j++ {
                         // Calculate the RELU of the value.
@@ -83,6 +95,9 @@ func LeakyRELU(m Matrix, slope float64) Matrix {
 
 // Leaky RELU gradient function.
 func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
+	// Work on a copy, leaving the argument untouched.
+	m = m.Copy()
+
         for i := 0; i < m.Rows; i++ {
                 for j := 0; j < m.Cols; j++ {
                         // Calculate the derivatives for RELU (heaviside step function)
@@ -98,6 +113,9 @@ func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
 
 // Softmax activation function.
 func Softmax(m Matrix) Matrix {
+	// Work on a copy, leaving the argument untouched.
+	m = m.Copy()
+
 	for i := 0; i < m.Rows; i++ {
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
-- 
2.43.0


From 3b48fbb0bb60396f7ad0c2461a4d9867c7b5b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 11/35] fix: differentiate the sigmoid layer at its weighted
 sums, not at its inputs

---
 network.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/network.go b/network.go
index 7d66ff1..7076cb5 100644
--- a/network.go
+++ b/network.go
@@ -256,10 +256,11 @@ func (l *LinearLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 
 // Main sigmoid neural network layer struct.
 type SigmoidLayer struct {
-        InputSize  int
-        OutputSize int
-        Weights    *Matrix
-        Biases     *Matrix
+        InputSize     int
+        OutputSize    int
+        Weights       *Matrix
+        Biases        *Matrix
+	sigmoidInputs Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save the sigmoid inputs.
+	l.sigmoidInputs = out
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -350,7 +354,7 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         }
 
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        dValues = SigmoidPrime(l.sigmoidInputs, dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From f20c15fec248ad9d75e2c486b887114f02b87eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 12/35] fix: keep softmax finite for large inputs

---
 activation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index b2bf6bc..598e443 100644
--- a/activation.go
+++ b/activation.go
@@ -117,10 +117,16 @@ func Softmax(m Matrix) Matrix {
 	m = m.Copy()
 
 	for i := 0; i < m.Rows; i++ {
+		// Subtract the largest value of the row, so that the exponentials cannot overflow.
+		largest := m.M[i][0]
+		for j := 1; j < m.Cols; j++ {
+			largest = math.Max(largest, m.M[i][j])
+		}
+
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			m.M[i][j] = math.Exp(m.M[i][j] - largest)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From c32def86326403002dd9abd4a08ced024e034ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 13/35] fix: refuse gradients whose number of samples differs
 from the last forward pass

---
 network.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/network.go b/network.go
index 7076cb5..f7eb621 100644
--- a/network.go
+++ b/network.go
@@ -126,6 +126,9 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	if dValues.Cols != l.OutputSize {
 		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
 	}
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
 	// Calculate the gradients on the RELU activation function.
 	dValues = RELUPrime(dValues, l.reluInputs)
@@ -352,6 +355,9 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+	if l.sigmoidInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.sigmoidInputs.Rows, dValues.Rows)
+	}
 
         // Calculate the gradients on the sigmoid activation function.
         dValues = SigmoidPrime(l.sigmoidInputs, dValues)
@@ -478,6 +484,9 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
         // Calculate the gradients on the leaky RELU activation function.
 	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
@@ -840,6 +849,9 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
 	// Calculate the gradients on the dropout.
 	for i := 0; i < dValues.Rows; i++ {
-- 
2.43.0


From c7d804ac6901ffd8c03e653acbd2d3e85af54993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 14/35] fix: check the input width in the softmax cross-entropy
 backward pass

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index f7eb621..477209c 100644
--- a/network.go
+++ b/network.go
@@ -665,6 +665,9 @@ func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 // Softmax + categorial cross-entropy loss layer backward pass. Arguments are the input, correct output and output matricies. Ouputs the gradients for the weights, biases, and inputs, respectively.
 func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
         // Check that the input and output matricies are valid.
+	if x.Cols != l.InputSize {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+	}
 	if y.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
         }
-- 
2.43.0


From d4a4f9a959ed4ab5d4baebd0538dc1041f5ee57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 15/35] fix: scale dropout gradients like the outputs, and
 output zeros instead of NaN for a rate of 1

---
 network.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 477209c..5d7d4c5 100644
--- a/network.go
+++ b/network.go
@@ -806,7 +806,11 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
 			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if l.binaryMask.M[i][j] != 0 {
+				// Scale the values that are kept, here and in the backward pass.
+				l.binaryMask.M[i][j] /= 1 - l.Dropout
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From 5c9a55d81644d12b0f70b5abb54f70d042da24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 16/35] fix: reset the dropout mask in passes without dropout,
 so that a backward pass matches them

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 5d7d4c5..7374238 100644
--- a/network.go
+++ b/network.go
@@ -843,6 +843,10 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
+	// Nothing is dropped, so gradients pass through unchanged.
+	mask, _ := NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = mask.AddScalar(1)
+
 	// Return the matrix.
 	return out, nil
 }
-- 
2.43.0


From 73d606037732995ebf1c4ee9f7dfa54eb3793016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 17/35] fix: seed the dropout generator (NewSource set the
 source of a copy)

---
 binomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binomial.go b/binomial.go
index fe3f2eb..91473b0 100644
--- a/binomial.go
+++ b/binomial.go
@@ -29,7 +29,7 @@ type binomial struct {
 }
 
 // Create the new source.
-func (b binomial) NewSource() {
+func (b *binomial) NewSource() {
 	b.Src = rand.NewSource(uint64(time.Now().UnixNano()))
 }
 
-- 
2.43.0


From a8a9130655b059d62cd50c392dd81d411155543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 18/35] fix: correct the second moments of Adam with beta2

---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From 2839a6dd870331cffa0b2dd6b7f7d5cc8fccc9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 19/35] fix: refuse gradients of the wrong shape before
 updating anything

---
 optimizers.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index ad9e367..bec8437 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -94,6 +94,14 @@ func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error
 
 // Update the weights and biases for the layer.
 func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check that the gradients match the weights and biases.
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
 		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
@@ -223,6 +231,14 @@ func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamO
 
 // Update the weights and biases for the layer.
 func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check that the gradients match the weights and biases.
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
                 optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
-- 
2.43.0


From e5c58ac7a0828e99e63d97519fbdb8c2ea1c9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 20/35] fix: find the best class of rows without a positive
 value

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 887b5fd..952b117 100644
--- a/misc.go
+++ b/misc.go
@@ -39,7 +39,7 @@ func RowMax(X Matrix) Matrix {
 	// Loop over the matrix, getting the largest value.
 	for i := 0; i < X.Rows; i++ {
 		var largest int
-		var largestValue float64
+		largestValue := X.M[i][0]
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] > largestValue {
 				largest = j
-- 
2.43.0


From 3dc17d357e1ad45458714b9cd1517338e294677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 21/35] fix: do not overwrite the predictions when thresholding
 them

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index 952b117..7be43c0 100644
--- a/misc.go
+++ b/misc.go
@@ -58,6 +58,9 @@ func RowMax(X Matrix) Matrix {
 
 // Return the output values for binary categorization.
 func OutputBinaryValues(X Matrix) Matrix {
+	// Work on a copy, leaving the predictions untouched.
+	X = X.Copy()
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0.5 {
-- 
2.43.0


From 2d64ee7ea3dc8e892213c41be3a10d076216aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 22/35] fix: return an error for labels outside the classes in
 SparseToOneHot

---
 misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 7be43c0..68b3e01 100644
--- a/misc.go
+++ b/misc.go
@@ -23,7 +23,11 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
-		ans.M[i][int(X.M[i][0])] = 1
+		label := int(X.M[i][0])
+		if label < 0 || label >= size {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Label is not a valid class.")
+		}
+		ans.M[i][label] = 1
 	}
 
 	// Return the output matrix.
-- 
2.43.0


From acd11300ccbeb0147fee83a448ef83071acc2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 23/35] fix: shuffle with an own generator instead of reseeding
 the global one

---
 misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc.go b/misc.go
index 68b3e01..1443025 100644
--- a/misc.go
+++ b/misc.go
@@ -83,10 +83,10 @@ func OutputBinaryValues(X Matrix) Matrix {
 // Shuffle the X and Y matricies.
 func ShuffleDataset(X, Y Matrix) (Matrix, Matrix) {
 	// Seed the random number generator.
-	rand.Seed(time.Now().UnixNano())
+	r := rand.New(rand.NewSource(time.Now().UnixNano()))
 
 	// Shuffle the matricies.
-	rand.Shuffle(X.Rows, func(i, j int) {
+	r.Shuffle(X.Rows, func(i, j int) {
 		X.M[i], X.M[j] = X.M[j], X.M[i]
 		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
 	})
-- 
2.43.0


From b2d9263edff309f34ca284163669274b6a6420af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 24/35] fix: validate the accuracy percision before changing
 the model in Finalize

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 5b60cec..2e040f1 100644
--- a/model.go
+++ b/model.go
@@ -103,6 +103,9 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 	if m.OutputSize != int(values["size"]) {
 		return errors.New("nn.Model: Loss size does not match up with output size.")
 	}
+	if accuracyPercision < 0 {
+		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
+	}
 	m.LossType = LossType(values["type"])
 	m.Loss = loss
 
@@ -124,9 +127,6 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 
 	// Set the accuracy.
 	m.AccuracyType = accuracyType
-	if accuracyPercision < 0 {
-		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
-	}
 	m.AccuracyPercision = accuracyPercision
 
 	return nil
-- 
2.43.0


From a3b888d9caef27c08c2dbb492326d027eec357fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 25/35] fix: refuse unknown accuracy types in Finalize

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 2e040f1..ff71e6d 100644
--- a/model.go
+++ b/model.go
@@ -106,6 +106,9 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 	if accuracyPercision < 0 {
 		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
 	}
+	if accuracyType != RegressionAccuracyType && accuracyType != CategoricalAccuracyType && accuracyType != BinaryCategoricalAccuracyType {
+		return errors.New("nn.Model: Invalid accuracy type.")
+	}
 	m.LossType = LossType(values["type"])
 	m.Loss = loss
 
-- 
2.43.0


From d0ebeec1f82f3a7439e0df8b6cfb7392bcb750f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 26/35] fix: refuse mismatched sample counts and negative batch
 sizes in Fit

---
 model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model.go b/model.go
index ff71e6d..ab90bd4 100644
--- a/model.go
+++ b/model.go
@@ -215,6 +215,14 @@ func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
 
 // Fit the network. If batchSize is zero, the model will not use batching. If yVal is empty, the model will not use validation. If logEvery is zero, the model will not be verbose.
 func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEvery int) error {
+	// Check that the arguments are valid.
+	if X.Rows != Y.Rows {
+		return errors.New("nn.Model: The number of inputs does not match up with the number of outputs.")
+	}
+	if batchSize < 0 {
+		return errors.New("nn.Model: Batch size cannot be less than zero.")
+	}
+
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
-- 
2.43.0


From fa48acffa51c920b6f2378b0d9ac40fdcffc9905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 27/35] fix: discard log output by default instead of panicking
 on nil loggers

---
 nn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..5189f09 100644
--- a/nn.go
+++ b/nn.go
@@ -18,9 +18,9 @@ const (
 
 // Logging.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger *log.Logger = log.New(io.Discard, "[warning]: ", log.Ldate|log.Ltime)
+	InfoLogger    *log.Logger = log.New(io.Discard, "[info]: ", log.Ldate|log.Ltime)
+	ErrorLogger   *log.Logger = log.New(io.Discard, "[error]: ", log.Ldate|log.Ltime)
 )
 
 
-- 
2.43.0


From 9541d5fc0a087087559b2b04a4e0515291f5e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 28/35] fix: do not overwrite the upstream gradients in the
 dropout backward pass

---
 network.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/network.go b/network.go
index 7374238..b04b800 100644
--- a/network.go
+++ b/network.go
@@ -865,6 +865,7 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 	}
 
 	// Calculate the gradients on the dropout.
+	dValues = dValues.Copy()
 	for i := 0; i < dValues.Rows; i++ {
                 for j := 0; j < dValues.Cols; j++ {
 			dValues.M[i][j] *= l.binaryMask.M[i][j]
-- 
2.43.0


From 100b5ac0132839b5714ee26e0f7e19eb1a62f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 29/35] fix: write the optimizer values in a fixed order

---
 model_data.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index b291ad3..b9b4314 100644
--- a/model_data.go
+++ b/model_data.go
@@ -9,6 +9,7 @@ import (
         "encoding/binary"
 	"errors"
 	"os"
+	"sort"
 )
 
 
@@ -101,8 +102,17 @@ func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
                 return err
         }
 
+	// Sort the keys, so that the same model is always written as the same bytes.
+	keys := []string{}
+	for k := range m.OptimizerValues {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
 	// Loop over the optimizer values and write each key-value pair.
-	for k, v := range m.OptimizerValues {
+	for _, k := range keys {
+		v := m.OptimizerValues[k]
+
 		// Write the length of the key.
 		err = binary.Write(buf, binary.LittleEndian, int8(len(k)))
 	        if err != nil {
-- 
2.43.0


From 4af7ecc8f9dc31827d4ed8728851eb11f569b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 30/35] fix: refuse to save models whose number of layers does
 not fit the format

---
 model_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model_data.go b/model_data.go
index b9b4314..b895d7d 100644
--- a/model_data.go
+++ b/model_data.go
@@ -52,6 +52,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the number of layers can be stored.
+	if m.ModelSize > 127 {
+		return errors.New("nn.SaveModel: Too many layers to save.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From 4dd051a832f2fe49a0e05a83856c4f167603e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 31/35] fix: return an error for negative key lengths in model
 data

---
 model_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model_data.go b/model_data.go
index b895d7d..bf6f0da 100644
--- a/model_data.go
+++ b/model_data.go
@@ -275,6 +275,11 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	                return SavedModelData{}, []Layer{}, err
 		}
 
+		// Check the key length.
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid key length. Check that the data is not corrupted.")
+		}
+
 		// Read the key.
 		key := make([]byte, int(lenKey))
 	        _, err := buf.Read(key)
-- 
2.43.0


From 670c193e19c2c698f116be2739e972edb5af9b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 32/35] fix: check the stored layer sizes against the data
 before allocating the parameters

---
 layer_data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..49cab05 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,14 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check the sizes against the amount of data left, before creating the matricies.
+	if inputSize < 1 || outputSize < 1 {
+		return SavedLayerData{}, invalidLayerDimensionsError(int(inputSize), int(outputSize))
+	}
+	if (int64(inputSize) + 1) * int64(outputSize) > int64(buf.Len() / 8) {
+		return SavedLayerData{}, errors.New("nn.LoadLayer: Not enough data. Check that the data is not corrupted.")
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
-- 
2.43.0


From 3c217763652f195055f05d0504f77bd49b0c6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 33/35] fix: encode the model before truncating the file it is
 saved to

---
 model_data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_data.go b/model_data.go
index bf6f0da..8366c09 100644
--- a/model_data.go
+++ b/model_data.go
@@ -372,19 +372,19 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
+        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
-- 
2.43.0


From 02e51ca7302a4db10d1c91e9f2f5180cb325a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 34/35] fix: report an error when closing a saved file fails

---
 model_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model_data.go b/model_data.go
index 8366c09..e507df5 100644
--- a/model_data.go
+++ b/model_data.go
@@ -384,15 +384,15 @@ func SaveFile(model *Model, filename string) error {
         if err != nil {
                 return err
         }
-        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
         if err != nil {
+		file.Close()
                 return err
         }
 
-	return nil
+	return file.Close()
 }
 
 // Load a model from a file.
-- 
2.43.0


From 2edccc8185e5cf2b05ecc3e913adaaa4a22f4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 35/35] fix: read model files completely

---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index e507df5..36cb778 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"os"
 	"sort"
 )
@@ -412,7 +413,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0

