From 7147ba9841ddb6469a3950190f2299df5657ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:43 +0000
Subject: [PATCH 01/33] fix: keep split thresholds between the two values they
 separate

---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index a3300b7..a3f3e70 100644
--- a/tree.go
+++ b/tree.go
@@ -248,6 +248,12 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			T.splitFeatureIndex = featureIndex
 			T.bestScoreSoFar = gain
 			T.threshold = (xi + xinext) / 2
+			if math.IsInf(T.threshold, 0) { //the sum overflowed
+				T.threshold = xi/2 + xinext/2
+			}
+			if T.threshold >= xinext { //no representable value in the middle, keep xinext on the right
+				T.threshold = xi
+			}
 		}
 	}
 }
-- 
2.43.0


From 45f68107c56e84c78c13e291cb7a31ddae3d37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:44 +0000
Subject: [PATCH 02/33] fix: child nodes keep the allowed columns of their tree

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index a3f3e70..16600d5 100644
--- a/tree.go
+++ b/tree.go
@@ -72,6 +72,8 @@ func DefaultXTreeOptions() *TreeOptions {
 
 func (T *TreeOptions) clone() *TreeOptions {
 	ret := &TreeOptions{}
+	ret.Debug = T.Debug
+	ret.AllowedColumns = T.AllowedColumns
 	ret.XGB = T.XGB
 	ret.Gradients = T.Gradients
 	ret.Hessian = T.Hessian
-- 
2.43.0


From e9465ca0d8833d838d1237df1d03c2fbd73bf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:44 +0000
Subject: [PATCH 03/33] fix: NewTree does not change the options of its caller

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index 16600d5..fa8ef92 100644
--- a/tree.go
+++ b/tree.go
@@ -92,6 +92,8 @@ func (T *TreeOptions) clone() *TreeOptions {
 // Returns a new tree for the data X and options o
 func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret := &Tree{}
+	oc := *o //the options are filled below, which the caller should not notice.
+	o = &oc
 	if o.XGB {
 		if o.Gradients == nil && o.Hessian == nil {
 			panic("nil gradients/hessians in XGBoost tree")
-- 
2.43.0


From 5e28f5f8b1ec2d2911e25258731569afefefe26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:45 +0000
Subject: [PATCH 04/33] fix: Feats.Add looks features up under its lock

---
 tree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index fa8ef92..0b58e68 100644
--- a/tree.go
+++ b/tree.go
@@ -361,17 +361,15 @@ func NewFeats(xgboost bool) *Feats {
 // Adds a feature,gain pair to the f set. This operation
 // is concurrency-safe.
 func (f *Feats) Add(feature int, gain float64) {
+	f.m.Lock()
+	defer f.m.Unlock()
 	index := slices.Index(f.feat, feature)
 	if index >= 0 {
-		f.m.Lock()
 		f.gains[index] += gain
-		f.m.Unlock()
 		return
 	}
-	f.m.Lock()
 	f.feat = append(f.feat, feature)
 	f.gains = append(f.gains, gain)
-	f.m.Unlock()
 	return
 }
 
-- 
2.43.0


From 6296d39ade0c4153f389b3c6f61c3bb225718892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 05/33] fix: option clones and comparisons cover every setting

---
 options.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/options.go b/options.go
index 73c376a..4effac5 100644
--- a/options.go
+++ b/options.go
@@ -80,7 +80,10 @@ func (o *Options) Equal(O *Options) bool {
 	if O.BaseScore != o.BaseScore {
 		return false
 	}
-	if O.TreeMethod != "exact" {
+	if O.EarlyStop != o.EarlyStop {
+		return false
+	}
+	if O.TreeMethod != o.TreeMethod {
 		return false
 	}
 	if O.Loss != o.Loss {
@@ -107,7 +110,8 @@ func (o *Options) Clone() *Options {
 	O.MaxDepth = o.MaxDepth
 	O.LearningRate = o.LearningRate
 	O.BaseScore = o.BaseScore
-	O.TreeMethod = "exact"
+	O.EarlyStop = o.EarlyStop
+	O.TreeMethod = o.TreeMethod
 	O.Loss = o.Loss
 	O.Verbose = o.Verbose
 	O.MinSample = o.MinSample
-- 
2.43.0


From de96bd028b84e8420b8c8f3f75e7c0533b4eb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 06/33] fix: NewMultiClass does not change the options of its
 caller

---
 xgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xgb.go b/xgb.go
index 2699b8d..b75b69b 100644
--- a/xgb.go
+++ b/xgb.go
@@ -34,6 +34,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	rawPred.Scale(O.BaseScore, rawPred)
 	//just to be safe
 	if O.MinChildWeight < 1 {
+		O = O.Clone()
 		O.MinChildWeight = 1
 	}
 	tin := make([]int, len(D.Data))
-- 
2.43.0


From 41c00679912c62c52c42264f8ab5e41bf8255915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:47 +0000
Subject: [PATCH 07/33] fix: softmax of large scores does not overflow

---
 utils/loss_acti.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index d00d50f..3217d72 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -37,8 +37,12 @@ func SoftMax(p, probs []float64) []float64 {
 	if probs == nil {
 		probs = make([]float64, len(p))
 	}
+	max := 0.0
+	if len(p) > 0 {
+		max = floats.Max(p) //the result is the same, but the exponentials can't overflow
+	}
 	for i, v := range p {
-		probs[i] = math.Exp(v)
+		probs[i] = math.Exp(v - max)
 	}
 	den := floats.Sum(probs)
 	for i := range p {
-- 
2.43.0


From 23ca03d392ec96d35167d9891266e8405a21e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:48 +0000
Subject: [PATCH 08/33] fix: leaves with vanishing hessian do not get
 non-finite values

---
 tree.go | 6 ++++++
 xgb.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/tree.go b/tree.go
index 0b58e68..a95c485 100644
--- a/tree.go
+++ b/tree.go
@@ -118,6 +118,9 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret.y = o.Y
 	if ret.xgb {
 		ret.value = -1 * floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)) / (floats.Sum(utils.SampleSlice(ret.hess, o.Indexes)) + o.Lambda) //eq 5
+		if math.IsNaN(ret.value) || math.IsInf(ret.value, 0) {
+			ret.value = 0 //no hessian in this node
+		}
 		ret.bestScoreSoFar = 0.0
 	} else {
 		ret.bestScoreSoFar = math.Inf(1)
@@ -230,6 +233,9 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 				break
 			}
 			gain = 0.5*((sq(sumgLeft)/(sumhLeft+o.Lambda))+(sq(sumgRight)/(sumhRight+o.Lambda))-(sq(sumg)/(sumh+o.Lambda))) - (o.Gamma / 2) // Eq(7) in the xgboost paper
+			if math.IsNaN(gain) || math.IsInf(gain, 0) {
+				continue //no hessian on one side
+			}
 			//in eq 7 ,gamma is NOT divided by 2. Check!
 			criterion = func() bool { return gain > T.bestScoreSoFar }
 
diff --git a/xgb.go b/xgb.go
index b75b69b..9fbec8b 100644
--- a/xgb.go
+++ b/xgb.go
@@ -207,6 +207,9 @@ func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 			sumgrad += gradient.At(0, w)
 		}
 		nval := sumgrad / sumhess
+		if math.IsNaN(nval) || math.IsInf(nval, 0) { //no (or too little) hessian in this leaf
+			nval = 0
+		}
 		leaf.value = nval
 	}
 	applyToLeafs(tree, fn)
-- 
2.43.0


From 98b8ddda83e554e7eaff2eb99fdef3258924a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:48 +0000
Subject: [PATCH 09/33] fix: the minimum sample size applies to the rows
 actually used

---
 xgb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 9fbec8b..2b98d23 100644
--- a/xgb.go
+++ b/xgb.go
@@ -56,7 +56,11 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if len(sampleIndexes) < O.MinSample {
+		nrows := len(D.Data)
+		if sampleIndexes != nil {
+			nrows = len(sampleIndexes)
+		}
+		if nrows < O.MinSample || nrows == 0 {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From 5b48eb55e9e5d7a051a33b9b1ef0b62bfae1a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:49 +0000
Subject: [PATCH 10/33] fix: trees stay with their class after another class
 stops early

---
 xgb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xgb.go b/xgb.go
index 2b98d23..e5e3940 100644
--- a/xgb.go
+++ b/xgb.go
@@ -66,6 +66,12 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		classes := make([]*Tree, 0, 1)
 		for k := 0; k < nlabels; k++ {
 			if stopped[k] {
+				//an empty tree, which predicts 0, keeps the place of this class.
+				empty := &Tree{xgb: O.XGB, branches: 1}
+				if !O.XGB {
+					empty.bestScoreSoFar = math.Inf(1)
+				}
+				classes = append(classes, empty)
 				continue
 			}
 			var tOpts *TreeOptions
-- 
2.43.0


From 8cdefd6b4d56ad82b8c97d85c21dca0e15f7262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:50 +0000
Subject: [PATCH 11/33] fix: the first trained round is the reference for early
 stopping

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index e5e3940..854f08a 100644
--- a/xgb.go
+++ b/xgb.go
@@ -127,7 +127,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 					stopped[k] = true
 					continue
 				}
-				if round == 0 {
+				if len(boosters) == 0 { //first round that was not skipped
 					prevloss[k] = currloss
 					continue
 				}
-- 
2.43.0


From 9b09f5a8495ccc009f9515633bd1adc071d458fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:50 +0000
Subject: [PATCH 12/33] fix: Rounds and Classes report the rounds and classes
 of the ensemble

---
 multiclass.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 83f7350..644dc58 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -57,18 +57,24 @@ func (M *MultiClass) Rounds(class ...int) int {
 		c = class[0]
 	}
 	//	println(len(M.b), c) /////////////////////////
-	if M.Classes() < c || len(M.b) <= c {
+	if M.Classes() <= c {
 		//println(len(M.b), c, M.Classes(), "v2") /////////////////////////
 
 		return -1
 	}
-	return len(M.b[c])
+	rounds := 0
+	for _, ensemble := range M.b {
+		if c < len(ensemble) && ensemble[c].nsamples > 0 { //not a place holder
+			rounds++
+		}
+	}
+	return rounds
 }
 
 // Returns the number of classes, i.e. the number of categories to which
 // each data vector could belong.
 func (M *MultiClass) Classes() int {
-	return len(M.b)
+	return len(M.classLabels)
 }
 
 // Predicts the class to which a single sample belongs. You can give a slice of floats
-- 
2.43.0


From 22d00b8827a96877f8d8d5802c5cbd881a279a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:51 +0000
Subject: [PATCH 13/33] fix: predictions work without rounds and fill the slice
 supplied

---
 multiclass.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 644dc58..7ab242f 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -96,8 +96,13 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.b[0]))
-	tmp := make([]float64, len(M.b[0]))
+	n := len(M.classLabels)
+	if len(predictions) > 0 && len(predictions[0]) >= n {
+		preds = predictions[0][:n]
+	} else {
+		preds = make([]float64, n)
+	}
+	tmp := make([]float64, n)
 	for i := range tmp {
 		tmp[i] = M.baseScore
 	}
-- 
2.43.0


From af2c0065f2a877f26e05f8cabfb60da75b5df3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:52 +0000
Subject: [PATCH 14/33] fix: log odds are the logarithm of p/(1-p)

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 854f08a..8e2ac1d 100644
--- a/xgb.go
+++ b/xgb.go
@@ -163,7 +163,7 @@ func LogOddsFromProbs(m *mat.Dense) *mat.Dense {
 		row := m.RawRowView(i)
 		s := floats.Sum(row)
 		for j, v := range row {
-			ret.Set(i, j, math.Log(v*(s-v)))
+			ret.Set(i, j, math.Log(v/(s-v)))
 		}
 	}
 	return ret
-- 
2.43.0


From f050a057276dc1430e5cf27d96229e20fab633b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:52 +0000
Subject: [PATCH 15/33] fix: loading a model keeps its last round

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 7ff1d2d..6bdb2ef 100644
--- a/xjson.go
+++ b/xjson.go
@@ -89,6 +89,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if class != nil {
+		trees = append(trees, class)
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From 05e24ff1608774aee1d663babb642c8f2e554a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:53 +0000
Subject: [PATCH 16/33] fix: loading a model keeps its boosting type

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 6bdb2ef..e11d96c 100644
--- a/xjson.go
+++ b/xjson.go
@@ -49,6 +49,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	ret.classLabels = jmc.ClassLabels
 	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
 	ret.baseScore = jmc.BaseScore
+	ret.xgb = jmc.XGB
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
 	//	if err != nil {
@@ -136,6 +137,7 @@ type JSONMetaData struct {
 	ClassLabels       []int
 	ProbTransformName string
 	BaseScore         float64
+	XGB               bool
 }
 
 func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error) {
@@ -144,6 +146,7 @@ func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error)
 		ClassLabels:       m.classLabels,
 		ProbTransformName: probtransformname,
 		BaseScore:         m.baseScore,
+		XGB:               m.xgb,
 	}
 	j, err := json.Marshal(r)
 	if err != nil {
-- 
2.43.0


From e4857b26ac7957955974b563232308af7407e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:54 +0000
Subject: [PATCH 17/33] fix: loading an incomplete model or an unknown
 activation is an error

---
 xjson.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xjson.go b/xjson.go
index e11d96c..65e5e58 100644
--- a/xjson.go
+++ b/xjson.go
@@ -48,6 +48,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	ret.learningRate = jmc.LearningRate
 	ret.classLabels = jmc.ClassLabels
 	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
+	if ret.probTransform == nil {
+		return nil, fmt.Errorf("Unknown activation function: %q", jmc.ProbTransformName)
+	}
 	ret.baseScore = jmc.BaseScore
 	ret.xgb = jmc.XGB
 	//I'm not sure this will work!
@@ -93,6 +96,16 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	if class != nil {
 		trees = append(trees, class)
 	}
+	if jmc.Rounds > 0 { //files from older versions don't have this
+		if len(trees) != jmc.Rounds {
+			return nil, fmt.Errorf("Incomplete model: %d rounds read, %d expected", len(trees), jmc.Rounds)
+		}
+		for i, v := range trees {
+			if len(v) != len(ret.classLabels) {
+				return nil, fmt.Errorf("Incomplete model: %d trees read in round %d, %d expected", len(v), i, len(ret.classLabels))
+			}
+		}
+	}
 	ret.b = trees
 	return ret, nil
 }
@@ -138,6 +151,7 @@ type JSONMetaData struct {
 	ProbTransformName string
 	BaseScore         float64
 	XGB               bool
+	Rounds            int
 }
 
 func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error) {
@@ -147,6 +161,7 @@ func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error)
 		ProbTransformName: probtransformname,
 		BaseScore:         m.baseScore,
 		XGB:               m.xgb,
+		Rounds:            len(m.b),
 	}
 	j, err := json.Marshal(r)
 	if err != nil {
-- 
2.43.0


From 3e5277cac75bbd639b71ef1a8886c6983c437e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:55 +0000
Subject: [PATCH 18/33] fix: cross-validation of too few samples is an error,
 not a panic

---
 utils/stat.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/stat.go b/utils/stat.go
index 14b7122..cc5e604 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -69,6 +69,9 @@ func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int,
 		nf = nfold
 	}
 	tot := len(data.Data)
+	if tot < minleftout*minfold {
+		return 0, nil, fmt.Errorf("Too few samples (%d) for crossvalidation", tot)
+	}
 	tried := make([]int, 0, 5)
 	for ; tot/nf < minleftout; nf-- {
 		err = fmt.Errorf("The %d-fold crossvalidation requested leaves only %d sample(s) per fold, when the minimum allowed is %d. Will use %d-fold.N-folds already tried: %v", nf, tot/nf, minleftout, nf-1, tried)
-- 
2.43.0


From 669eeb5a56ec79f6a8e0bb65acb1be6f0c6e3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:55 +0000
Subject: [PATCH 19/33] fix: cross-validation folds keep the feature names

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index cc5e604..57182da 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -40,7 +40,7 @@ func fillDataBunch(ori, dest *DataBunch, toadd []int, docopy bool) *DataBunch {
 			dest.Labels = append(dest.Labels, ori.Labels[v])
 		}
 	}
-	if len(dest.Keys) > 0 {
+	if len(ori.Keys) > 0 {
 		if docopy {
 			dest.Keys = make([]string, len(ori.Keys))
 			copy(dest.Keys, ori.Keys)
-- 
2.43.0


From ee8864b8bee5dd3a4f7b05e91ac1e955f0987091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:56 +0000
Subject: [PATCH 20/33] fix: column helpers reject the column after the last

---
 utils/math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index 18a4829..f650d45 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -104,7 +104,7 @@ func PrintDenseMatrix(m *mat.Dense) string {
 func DenseCol(D *mat.Dense, col int) *mat.Dense {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col >= c {
 		panic(fmt.Sprintf("DenseCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	data := raw.Data
@@ -120,7 +120,7 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 func AddToCol(D *mat.Dense, s []float64, col int) {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col >= c {
 		panic(fmt.Sprintf("AddToCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	if len(s) != r {
-- 
2.43.0


From 3c81852e26db11f3e3e4d41c74139eb20953bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:57 +0000
Subject: [PATCH 21/33] fix: the libSVM reader skips blank lines and keeps an
 unterminated last line

---
 utils/libsvm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index d642289..ae4fc95 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -166,9 +166,12 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 	for {
 		//	println("Will read the line", cont+1) ///////
 		line, err2 = buf.ReadString('\n')
-		if err2 != nil {
+		if err2 != nil && (err2 != io.EOF || line == "") {
 			break
 		}
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
 		var err error
 		if hasHeader && cont == 0 {
 			_, headers, _, err = parseLibSVMLine(line, true, nil, nil)
-- 
2.43.0


From 896d8b914f76a404c6848eac1d657c21e9c12317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:57 +0000
Subject: [PATCH 22/33] fix: empty datasets are written as empty text

---
 utils/csv.go    | 2 +-
 utils/libsvm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 0c814f2..75c0b24 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -13,7 +13,7 @@ import (
 // returns the data in CSV format, using whatever string is given as a separator
 // (comma if no string is given)
 func (D *DataBunch) CSV(separator ...string) string {
-	if D == nil {
+	if D == nil || len(D.Data) == 0 {
 		return ""
 	}
 	sep := ","
diff --git a/utils/libsvm.go b/utils/libsvm.go
index ae4fc95..b6c00de 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -64,7 +64,7 @@ func (D *DataBunch) String() string {
 // returns the data in libSVM format
 // not very good as it doesn't omit the zero-valued data, but I'll get there.
 func (D *DataBunch) LibSVM() string {
-	if D == nil {
+	if D == nil || len(D.Data) == 0 {
 		return ""
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-- 
2.43.0


From a6dceef81e9e6bbda0b15454f040109a2f7a1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:58 +0000
Subject: [PATCH 23/33] fix: ReadNameMap reports bad lines and read errors and
 keeps the last line

---
 confu/confu.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/confu/confu.go b/confu/confu.go
index e16d3ec..1a98fed 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -42,14 +42,22 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	fin := bufio.NewReader(ffin)
 	var rerr error
 	ret := make(map[int]string)
-	for s, rerr := fin.ReadString('\n'); rerr == nil; s, rerr = fin.ReadString('\n') {
-		s := strings.Replace(s, "\n", "", -1)
+	for rerr == nil {
+		var s string
+		s, rerr = fin.ReadString('\n')
+		s = strings.Replace(s, "\n", "", -1)
+		if strings.TrimSpace(s) == "" {
+			continue
+		}
 		var l []string
 		if sep == " " {
 			l = strings.Fields(s)
 		} else {
 			l = strings.Split(s, sep)
 		}
+		if len(l) < 2 {
+			return nil, fmt.Errorf("Malformed line in names file: %s", s)
+		}
 		num, err := strconv.Atoi(l[0])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From bd052fe94121a3a6e18680c6cb1b69e883ed4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:59 +0000
Subject: [PATCH 24/33] fix: grid search works with any number of CPUs and
 evaluates the last batch

---
 cv/cv.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cv/cv.go b/cv/cv.go
index aaf6923..b075dac 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -166,6 +166,10 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	if o.XGB {
 		defaultoptions = boo.DefaultXOptions
 	}
+	if o.NCPUs < 1 {
+		o = o.Clone()
+		o.NCPUs = 1
+	}
 	var finaloptions *boo.Options
 	accuracies := make([]float64, 0, 100)
 	bestacc := 0.0
@@ -225,6 +229,13 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 			}
 		}
 	}
+	if cpus > 0 { //the last, incomplete, batch
+		var err error
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		if err != nil {
+			return -1, nil, nil, err
+		}
+	}
 	return bestacc, accuracies, finaloptions, nil
 }
 
-- 
2.43.0


From 982b7f5e7007e31db6ee67a1533781cb3bbe220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:59 +0000
Subject: [PATCH 25/33] fix: grid search returns the accuracies it obtained

---
 cv/cv.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index b075dac..0567a25 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -212,7 +212,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									cpus++
 									if cpus == o.NCPUs {
 										var err error
-										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data, &accuracies)
 
 										if err != nil {
 											return -1, nil, nil, err
@@ -231,7 +231,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	}
 	if cpus > 0 { //the last, incomplete, batch
 		var err error
-		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data, &accuracies)
 		if err != nil {
 			return -1, nil, nil, err
 		}
@@ -240,7 +240,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 }
 
 // Rescues cross-validation results from the given channels (errors, accuracy and the corresponding boosting options)
-func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, error) {
+func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch, accuracies *[]float64) (float64, *boo.Options, error) {
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
@@ -254,6 +254,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			return -1, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
 		}
 		tmpop = <-opts[i]
+		*accuracies = append(*accuracies, tmpacc)
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
-- 
2.43.0


From 86f9548bf17e7368f9f851ed2e3e3df86fc674b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:00 +0000
Subject: [PATCH 26/33] fix: searches return options also if no accuracy is
 above zero

---
 cv/cv.go     | 2 +-
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 0567a25..0bd9c95 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -255,7 +255,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		}
 		tmpop = <-opts[i]
 		*accuracies = append(*accuracies, tmpacc)
-		if tmpacc > bestacc {
+		if tmpacc > bestacc || bestop == nil {
 			bestacc = tmpacc
 			bestop = tmpop
 			if verbose {
diff --git a/cv/grad.go b/cv/grad.go
index a5abb2a..cb9a7a0 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -254,7 +254,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 
 				}
 				//		println("new (might not be best) accuracy!", acc)
-				if acc > bestacc {
+				if acc > bestacc || finaloptions == nil {
 					if o.Verbose {
 						fmt.Println("New best accuracy: ", acc, t)
 					}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 4690388..2d5a161 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -55,7 +55,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 						if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
 							return fuzzOptions(tprev), nil
 						}
-						if acc > bestacc {
+						if acc > bestacc || finaloptions == nil {
 							if o.Verbose {
 								fmt.Println("New best accuracy: ", acc, t)
 							}
-- 
2.43.0


From 705b668daf674a966d8dd8bd6016961ffe5d19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:00 +0000
Subject: [PATCH 27/33] fix: grid search workers can finish after an error

---
 cv/cv.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 0bd9c95..6da98f9 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -178,9 +178,10 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 
 	os := make([]chan *boo.Options, o.NCPUs)
 	for i := range o.NCPUs {
-		accs[i] = make(chan float64)
-		errs[i] = make(chan error)
-		os[i] = make(chan *boo.Options)
+		//buffered, so workers can always finish, even if we return after an error
+		accs[i] = make(chan float64, 1)
+		errs[i] = make(chan error, 1)
+		os[i] = make(chan *boo.Options, 1)
 	}
 	//welcome to nested-hell. Sorry.
 	cpus := 0
-- 
2.43.0


From d8238e2b36f1a263a22990508e15c683cf984374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:01 +0000
Subject: [PATCH 28/33] fix: gradient steps report once and leave no goroutine
 behind

---
 cv/grad.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index cb9a7a0..5c8e93b 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -92,9 +92,10 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	f["Rounds"] = [2]myf{func(o *boo.Options) *boo.Options { o.Rounds -= int(float64(o.Rounds) * fd); return o }, func(o *boo.Options) *boo.Options { o.Rounds += int(float64(o.Rounds) * fd); return o }}
 
 	pO := f[param][1](O.Clone())
-	pluserr := make(chan error)
-	pluso := make(chan *boo.Options)
-	plusacc := make(chan float64)
+	//all buffered, so the cross-validations can finish even if we return before.
+	pluserr := make(chan error, 1)
+	pluso := make(chan *boo.Options, 1)
+	plusacc := make(chan float64, 1)
 	conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}
 	go MultiClassCrossValidation(D, nfold, conc)
 
@@ -106,11 +107,11 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		mO := f[param][0](O.Clone())
 		if mO.Check() != nil {
 			out <- O
-
+			return
 		}
-		minerr = make(chan error)
-		mino = make(chan *boo.Options)
-		minacc = make(chan float64)
+		minerr = make(chan error, 1)
+		mino = make(chan *boo.Options, 1)
+		minacc = make(chan float64, 1)
 		conc := &Options{O: mO, Acc: minacc, Err: minerr, Ochan: mino, Conc: true}
 		go MultiClassCrossValidation(D, nfold, conc)
 	}
@@ -121,6 +122,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	_ = <-pluso
 	if err != nil {
 		out <- O
+		return
 	}
 	h := fd * currentValue(O, param)
 	if !central {
@@ -135,6 +137,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		_ = <-mino
 		if err != nil {
 			out <- O
+			return
 		}
 		der = (pacc - macc) / 2 * h
 	}
@@ -181,7 +184,10 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 		conc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}
 		curracc, err = MultiClassCrossValidation(D, nfold, conc)
 		if err != nil {
-			return Ori
+			if out != nil {
+				out <- O
+			}
+			return O
 		}
 	}
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
-- 
2.43.0


From 736951268b4ff2c0fb8a2b683722cac7738da718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:02 +0000
Subject: [PATCH 29/33] fix: gradient steps do not change the options they
 start from

---
 cv/grad.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 5c8e93b..57209f7 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -174,10 +174,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 }
 
 func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, fractiondelta float64, nfold int, central bool, out chan *boo.Options) *boo.Options {
-	O := Ori
-	if out != nil {
-		O = Ori.Clone()
-	}
+	O := Ori.Clone()
 	var curracc float64
 	if !central {
 		var err error
@@ -193,7 +190,7 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
 
 	for k, v := range gm {
-		go ParamaterGradStep(D, O, CVO, k, step, fractiondelta, curracc, nfold, central, v)
+		go ParamaterGradStep(D, Ori, CVO, k, step, fractiondelta, curracc, nfold, central, v)
 	}
 	O.Gamma = (<-gm["Gamma"]).Gamma
 	O.Lambda = (<-gm["Lambda"]).Lambda
-- 
2.43.0


From e06d8993fbe40e15336bc4a29130037b849c119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:02 +0000
Subject: [PATCH 30/33] fix: a vanishing parameter has no finite-difference
 derivative

---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index 57209f7..2776de0 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -126,7 +126,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	}
 	h := fd * currentValue(O, param)
 	if !central {
-		if h < 0 {
+		if h <= 0 {
 			out <- O
 			return
 		}
-- 
2.43.0


From 01a758b2b613cce5782c503fa54388e134e1d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:03 +0000
Subject: [PATCH 31/33] fix: gradient searches use the requested folds and
 early stopping

---
 cv/grad.go   | 3 ++-
 cv/hybrid.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 2776de0..e02e40f 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -245,9 +245,10 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.MaxDepth = md
 			t.MinChildWeight = cw
 			t.XGB = o.XGB
+			t.EarlyStop = o.EarlyStop
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-				acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 				if err != nil {
 					return nil, err
 				}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 2d5a161..95968c8 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -48,7 +48,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					tprev := t.Clone()
 					CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-						acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+						acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 						if err != nil {
 							return nil, err
 						}
-- 
2.43.0


From 644b0f2cd1b73b56810fb0f50c0cdfdaa8c4b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 32/33] fix: printing no confusions per label does not panic

---
 confu/confu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index 1a98fed..17601cc 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -130,7 +130,7 @@ func (C *Confusions) PrintTopN(N int, m map[int]string) string {
 	ret := make([]string, 1, len(m)+1)
 	ret[0] = "Confusions:"
 	for i, v := range r {
-		str := make([]string, 1, N)
+		str := make([]string, 1, N+1)
 		sum := 0
 		for _, w := range rf[i] {
 			sum += w
-- 
2.43.0


From 51e6858981979d2ed5a226a69f3b67d696bca007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:12 +0000
Subject: [PATCH 33/33] fix: printing a tree with too few feature names does
 not panic

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index a95c485..e25e9fd 100644
--- a/tree.go
+++ b/tree.go
@@ -314,7 +314,7 @@ func (T *Tree) PredictSingle(row []float64) float64 {
 // If given the featurenames, returns the name of the split feature for the node. If not,
 // returns the zero-based index for the split feature.
 func (T *Tree) feature(featurenames []string) string {
-	if featurenames == nil && len(featurenames) <= T.splitFeatureIndex {
+	if len(featurenames) <= T.splitFeatureIndex {
 		return fmt.Sprintf("%2d", T.splitFeatureIndex)
 	}
 	return featurenames[T.splitFeatureIndex]
-- 
2.43.0

