From a139cdab01a333bf6ae97d6843871f194048582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:57 +0000
Subject: [PATCH 01/62] fix: size the inputs of n-ary operators by their
 operands

Operators such as concat report an arity of -1. Building a concurrent
machine for a graph with one of them panicked.
---
 x/vm/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/vm/node.go b/x/vm/node.go
index 7d6f577..dc56ae8 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -111,10 +111,15 @@ func newOp(n *gorgonia.Node, hasOutputChan bool) *node {
 		outputC = make(chan gorgonia.Value, 0)
 
 	}
+	arity := n.Op().Arity()
+	if arity < 0 {
+		// the operator is n-ary: it takes as many inputs as the node has children
+		arity = n.Graph().From(n.ID()).Len()
+	}
 	return &node{
 		id:          n.ID(),
 		op:          n.Op(),
-		inputValues: make([]gorgonia.Value, n.Op().Arity()),
+		inputValues: make([]gorgonia.Value, arity),
 		inputC:      make(chan ioValue, 0),
 		outputC:     outputC,
 	}
-- 
2.43.0


From 6768970db3fa0d12cd6220637de4ba625e875ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:24 +0000
Subject: [PATCH 02/62] fix: return from a concurrent run of an empty graph

The machine waited for the result of at least one node, so running a
graph without nodes blocked forever.
---
 x/vm/machine.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x/vm/machine.go b/x/vm/machine.go
index 4fffe03..5ec8101 100644
--- a/x/vm/machine.go
+++ b/x/vm/machine.go
@@ -159,16 +159,13 @@ func (m *Machine) runAllNodes(ctx context.Context) error {
 		}(m.nodes[i])
 	}
 	errs := make([]nodeError, 0)
-	for e := range errC {
-		total--
+	for ; total > 0; total-- {
+		e := <-errC
 		if e.err != nil {
 			errs = append(errs, e)
 			// failfast, on error, cancel
 			cancel()
 		}
-		if total == 0 {
-			break
-		}
 	}
 	cancel()
 	close(errC)
-- 
2.43.0


From 89fcd939e9c65ad3bab8eaabc080736bbe7cee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:47 +0000
Subject: [PATCH 03/62] fix: run operators without inputs in the concurrent
 machine

A random node has no bound value. The machine handed a nil value to its
consumers, which crashed.
---
 x/vm/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/vm/node.go b/x/vm/node.go
index dc56ae8..3804939 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -129,9 +129,15 @@ func newInput(n *gorgonia.Node) *node {
 	if n == nil {
 		return nil
 	}
-	return &node{
+	input := &node{
 		id:      n.ID(),
 		output:  n.Value(),
 		outputC: make(chan gorgonia.Value, 0),
 	}
+	if input.output == nil && n.Op() != nil {
+		// nothing is bound to the node, its value comes from running
+		// the operator (a random node for example)
+		input.op = n.Op()
+	}
+	return input
 }
-- 
2.43.0


From 198c02e12170dbaf2b05048c522e32b3bb38d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:32 +0000
Subject: [PATCH 04/62] fix: stop the lisp machine at the operation that fails

After reporting an error the machine's goroutine went on to the backward
pass, raced with the caller and then blocked forever. The reported node
was the one after the failing one, and a failure while differentiating
was not attributed to a node at all.
---
 vm_genera.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 7c1914b..e1d582b 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -263,12 +263,11 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 		goto backward
 	}
 
-	for err = nil; err == nil && m.fwd < len(m.sorted); m.fwd++ {
-		err = m.forward()
-	}
-
-	if err != nil {
-		errChan <- err
+	for ; m.fwd < len(m.sorted); m.fwd++ {
+		if err = m.forward(); err != nil {
+			errChan <- err
+			return
+		}
 	}
 
 	// send a synchronous signal, do all (if any) CUDA work before continuing with backprop
@@ -284,11 +283,15 @@ backward:
 		m.bwd = len(m.q) - 1
 	}
 
-	for err = nil; err == nil && m.bwd >= 0; m.bwd-- {
-		err = m.backward()
-	}
-	if err != nil {
-		errChan <- err
+	for ; m.bwd >= 0; m.bwd-- {
+		if err = m.backward(); err != nil {
+			errChan <- vmContextualError{
+				error: err,
+				node:  m.q[m.bwd].output,
+				instr: m.bwd,
+			}
+			return
+		}
 	}
 	doneChan <- struct{}{}
 }
-- 
2.43.0


From b8a465648b5834441b787615237132c0879c1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:05 +0000
Subject: [PATCH 05/62] fix: make Reset of the lisp machine start over

Reset left the position at the last node, so a run after it executed only
part of the graph, and kept the differentiation queue of the earlier run.
---
 vm_genera.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index e1d582b..0f84092 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -108,8 +108,9 @@ func (m *lispMachine) allowSetRootGrad()    { m.runFlags |= uint16(1) << spare3
 func (m *lispMachine) disallowSetRootGrad() { m.runFlags &= (^(uint16(1) << spare3)) }
 
 func (m *lispMachine) Reset() {
-	m.fwd = len(m.sorted) - 1
-	m.bwd = len(m.q) - 1
+	m.fwd = 0
+	m.bwd = -1
+	m.q = nil
 }
 
 func (m *lispMachine) Close() error {
-- 
2.43.0


From 9b8655a89a21135e4b42c2ddaf320e23614f0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:10 +0000
Subject: [PATCH 06/62] fix: keep gradients of scalar operands right in the
 lisp machine

The gradient accumulated in a scalar was counted once per element when the
scalar was used again with a tensor. Adding a scalar and a tensor returned
the output's gradient to the tensor pool while it was still bound.
---
 op_math.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/op_math.go b/op_math.go
index 36cd06d..f299053 100644
--- a/op_math.go
+++ b/op_math.go
@@ -252,6 +252,20 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	}
 
 	b := op.ʘBinaryOperator.binOpType()
+	// The gradient of a scalar operand of a tensor operation is the sum of elementwise gradients.
+	// These start from zero, or what has been accumulated so far would be counted once per element.
+	accumulated := make([]Value, len(inputs))
+	for i, in := range inputs {
+		indv := in.boundTo.(*dualValue)
+		if _, ok := indv.d.(Scalar); ok && !output.IsScalar() {
+			accumulated[i] = indv.d
+			if indv.d, err = CloneValue(indv.d); err != nil {
+				return errors.Wrap(err, cloneFail)
+			}
+			indv.d = ZeroValue(indv.d)
+		}
+	}
+
 	if err = ʘBinOpDiffFns[b](ctx, inputs[0], inputs[1], output); err != nil {
 		if _, ok := err.(AutoDiffError); !ok {
 			return errors.Wrapf(err, autodiffFail, b)
@@ -260,11 +274,14 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	}
 
 	//handle scalar gradients
-	for _, in := range inputs {
+	for i, in := range inputs {
 		indv := in.boundTo.(*dualValue)
 		if _, ok := indv.d.(Scalar); in.IsScalar() && !ok {
 			indvdT := indv.d.(tensor.Tensor)
-			defer returnTensor(indvdT)
+			// the diff functions may hand out the gradient of the output, which stays in use
+			if Value(indvdT) != output.boundTo.(*dualValue).d {
+				defer returnTensor(indvdT)
+			}
 
 			var d Value
 			var t tensor.Tensor
@@ -276,6 +293,14 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 			d, _ = anyToScalar(t.ScalarValue())
 			indv.SetDeriv(d)
 		}
+		if accumulated[i] != nil {
+			add := newEBOByType(addOpType, TypeOf(accumulated[i]), TypeOf(indv.d))
+			var d Value
+			if d, err = add.Do(accumulated[i], indv.d); err != nil {
+				return errors.Wrapf(err, doFail, add)
+			}
+			indv.SetDeriv(d)
+		}
 	}
 	return
 }
-- 
2.43.0


From 55c38235086549d060a3b995af7b9feb8655bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:41 +0000
Subject: [PATCH 07/62] fix: accumulate the gradient of a reshape in the lisp
 machine

The input's gradient was replaced by the output's gradient tensor, which
dropped contributions of other consumers and left both sharing memory.
---
 op_tensor.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0f6b09a..c98ff7f 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1262,13 +1262,22 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if grad, err = output.Grad(); err != nil {
 		return
 	}
-	T := grad.(tensor.Tensor)
+	// the output keeps its own gradient, and the input may have other consumers
+	T := grad.(tensor.Tensor).Clone().(tensor.Tensor)
 	if err = T.Reshape(op.from...); err != nil {
 		return
 	}
 	input := inputs[0]
 	dv := input.boundTo.(*dualValue)
-	return dv.SetDeriv(T)
+	if _, ok := dv.d.(tensor.Tensor); !ok {
+		return dv.SetDeriv(T)
+	}
+	var d Value
+	add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(T))
+	if d, err = add.UnsafeDo(dv.d, T); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return dv.SetDeriv(d)
 }
 
 /* PRIVATE FUNCTIONS */
-- 
2.43.0


From add695de355297c7c9ac51701d09782698ba088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:22 +0000
Subject: [PATCH 08/62] fix: do not hand out shared constants as gradients

The gradient of a parameter can be a constant node. Optimisers clear
gradients in place, which set the package's constant to zero for every
graph of the process.
---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index 74f6281..d0ab68f 100644
--- a/node.go
+++ b/node.go
@@ -448,6 +448,10 @@ func (n *Node) Grad() (Value, error) {
 		return dv.d, nil
 	}
 	if n.deriv != nil {
+		if n.deriv.isConstant() {
+			// gradients get cleared in place, and constants are shared between graphs
+			return CloneValue(n.deriv.Value())
+		}
 		return n.deriv.Value(), nil
 	}
 
-- 
2.43.0


From f9a24998cb9332bdad796b7eb5559f0e6c056fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:25 +0000
Subject: [PATCH 09/62] fix: do not share memory between a reshape and its
 input

The result of a reshape shared the memory of an input that was still in use.
The tape machine then let the next operation overwrite the result in place,
which changed the input. A second run without binding the inputs again
computed something else.
---
 op_tensor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index c98ff7f..5dc9755 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1162,7 +1162,8 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 			if v.IsView() {
 				val = v.Materialize()
 			} else {
-				val = v.ShallowClone()
+				// a copy: the result may be overwritten by whatever uses it, and the input is still live
+				val = v.Clone().(*tensor.Dense)
 			}
 		} else {
 			if val, err = CloneValue(vals[0]); err != nil {
-- 
2.43.0


From 2ac84670403b8b3f51414c9659333c95179c11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:51 +0000
Subject: [PATCH 10/62] fix: flush a batched BLAS before its results or
 operands are used

Only some of the operations that read the result of a queued call flushed
the queue first. Tracing, gradient binding, repeat, slice and tensordot used
memory that was not computed yet. Operations working in place overwrote
operands of queued calls.
---
 vm_tape_nocuda.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vm_tape_nocuda.go b/vm_tape_nocuda.go
index af8606e..34db00d 100644
--- a/vm_tape_nocuda.go
+++ b/vm_tape_nocuda.go
@@ -32,6 +32,14 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	}
 	m.leaveLogScope()
 
+	// Linear algebra may only have been queued by a batched BLAS. Anything else
+	// reads or overwrites memory right now, so the queue has to be worked off first.
+	if _, ok := instr.op.(linAlgBinOp); !ok {
+		if err = m.ExternMetadata.DoWork(); err != nil {
+			return errors.Wrap(err, "DoWork failed")
+		}
+	}
+
 	// check if the destination has already been allocated
 	var usePrealloc bool
 	dest := instr.writeTo.id
@@ -96,6 +104,13 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	m.cpumem[dest] = v
 	node := m.p.g.Node(instr.id).(*Node)
 
+	// likewise if the value itself is about to be looked at
+	if m.trace() || m.watchNaN() || m.watchInf() || (m.bindDV() && node.derivOf != nil) {
+		if err = m.ExternMetadata.DoWork(); err != nil {
+			return errors.Wrap(err, "DoWork failed")
+		}
+	}
+
 	if m.trace() && (len(m.watchNodes) == 0 || m.watchNodes.Contains(node)) {
 		if err = node.bindCopy(v); err != nil {
 			return errors.Wrapf(err, "TraceExec failed to bind copy")
-- 
2.43.0


From fdccaf8f90e09c613d83a4cbaf18ffeefc05982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:51 +0000
Subject: [PATCH 11/62] fix: do not lose work signals of a batched BLAS to an
 idle machine

The signal of the shared BLAS can be received for any machine. If that one
was not running, the work was never done and the running machine hung.
---
 noextern.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noextern.go b/noextern.go
index 6944750..845a3a2 100644
--- a/noextern.go
+++ b/noextern.go
@@ -91,11 +91,14 @@ func (m *ExternMetadata) Signal() {
 	}
 }
 
-// collectBLASWork is a muxer for CBLAS/CuBLAS (if any) and the devices
+// collectBLASWork works off what the batched BLAS (if any) has queued, whenever it says so.
+//
+// The BLAS is shared by all machines and any of them may be the one that gets the signal,
+// including one that isn't running. So the signal cannot be left to this machine's run.
 func (m *ExternMetadata) collectBLASWork() {
 	if m.b != nil {
 		for range m.b.WorkAvailable() {
-			m.workAvailable <- false
+			m.b.DoWork()
 		}
 	}
 }
-- 
2.43.0


From 1a271f3d4ccc8ecb9f3f949a5a6fb2e747276f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:23 +0000
Subject: [PATCH 12/62] fix: do not transpose the operands of a linear algebra
 operation in place

A matrix product with a transposed operand, as made by symbolic gradients,
flipped the operand in place and flipped it back afterwards. Anything else
using that value meanwhile saw it transposed: another operation in the
concurrent executor, or the other operand of the same product.
---
 op_math.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/op_math.go b/op_math.go
index f299053..1cfc0f4 100644
--- a/op_math.go
+++ b/op_math.go
@@ -775,21 +775,15 @@ func (op linAlgBinOp) do(inputs []Value, opts ...tensor.FuncOpt) (retVal Value,
 	a, b := inputs[0].(tensor.Tensor), inputs[1].(tensor.Tensor)
 
 	if op.transA && op.āBinaryOperator != batchedMatMulOperator {
-		if err = a.T(); err != nil {
+		if a, err = transposedCopy(a); err != nil {
 			return nil, errors.Wrap(err, tFail)
 		}
-
-		// untranspose
-		defer a.T()
 	}
 
 	if op.transB && op.āBinaryOperator != batchedMatMulOperator {
-		if err = b.T(); err != nil {
+		if b, err = transposedCopy(b); err != nil {
 			return nil, errors.Wrap(err, tFail)
 		}
-
-		// untranspose
-		defer b.T()
 	}
 
 	switch op.āBinaryOperator {
@@ -819,6 +813,22 @@ func (op linAlgBinOp) do(inputs []Value, opts ...tensor.FuncOpt) (retVal Value,
 	return retVal, nil
 }
 
+// transposedCopy returns the transpose of t and leaves t as it was: t may be an operand of other operations,
+// or the other operand of the same operation. The data is shared with t where that is possible.
+func transposedCopy(t tensor.Tensor) (tensor.Tensor, error) {
+	d, ok := t.(*tensor.Dense)
+	if !ok || d.DataOrder().IsTransposed() {
+		// a pending transposition cannot be shared
+		t = t.Clone().(tensor.Tensor)
+	} else {
+		t = d.ShallowClone()
+	}
+	if err := t.T(); err != nil {
+		return nil, err
+	}
+	return t, nil
+}
+
 func (op linAlgBinOp) preallocBatchMatMul(incr bool, prealloc Value, inputs ...Value) (retVal Value, err error) {
 	if err = checkArity(op, len(inputs)); err != nil {
 		return
-- 
2.43.0


From b5baf32abdf93570bc25d20a19136769e8846c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:19 +0000
Subject: [PATCH 13/62] fix: make group numbering safe for concurrent graph
 building

Layers such as Conv2d and MaxPool2D number their groups from a package
variable without synchronisation, so goroutines building separate graphs
raced on it and could hand out the same number twice.
---
 internal/encoding/groups.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/encoding/groups.go b/internal/encoding/groups.go
index 5581e36..8a6d05a 100644
--- a/internal/encoding/groups.go
+++ b/internal/encoding/groups.go
@@ -1,15 +1,15 @@
 package encoding
 
-var groupIndex int
+import "sync/atomic"
+
+var groupIndex int64
 
 // NewGroup creates a new group with a generated ID
 func NewGroup(name string) Group {
-	g := Group{
-		ID:   groupIndex,
+	return Group{
+		ID:   int(atomic.AddInt64(&groupIndex, 1) - 1),
 		Name: name,
 	}
-	groupIndex++
-	return g
 }
 
 // Group represent a cluster of elements
-- 
2.43.0


From f8729ae57eac57916718901e1faa200a6eb28508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:49 +0000
Subject: [PATCH 14/62] fix: keep the gradients of a softmax and its input
 apart in the lisp machine

Direct differentiation of a softmax stored the gradient of the input as the
gradient of the output too. The two shared memory from then on, so a machine
that was reset and run again started from a gradient that was not zero.
---
 op_softmax.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 42080f9..db647cb 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -143,14 +143,10 @@ func (op *softmaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
+	// the gradient is accumulated in the input. The output keeps its own.
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
 
-	return nil
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 534d1e22c27a9048aac9a45f77a3c4db81e9d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:54 +0000
Subject: [PATCH 15/62] fix: do not reshape the gradient of an output in the
 lisp machine

Direct differentiation of a sum along an axis and of a repeat changed the shape
of the gradient of their output in place. The next run of the machine then
failed when another operation used that gradient.
---
 op_reduction.go | 2 ++
 op_tensor.go    | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/op_reduction.go b/op_reduction.go
index 8ae9339..ec83664 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -276,6 +276,8 @@ func (op sumOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err er
 			for _, a := range op.along {
 				newShape[a] = 1
 			}
+			// a copy: the output keeps a gradient of its own shape
+			ydvd = ydvd.Clone().(tensor.Tensor)
 			ydvd.Reshape(newShape...)
 		}
 
diff --git a/op_tensor.go b/op_tensor.go
index 5dc9755..17f2d54 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -309,14 +309,15 @@ func (op repeatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 			along := []int{axis + 1}
 
 			// a scalar can never get to this path
-			t := d.(tensor.Tensor)
+			// a copy: the output keeps a gradient of its own shape
+			t := d.(tensor.Tensor).Clone().(tensor.Tensor)
 			if err = t.Reshape(newShape...); err != nil {
 				err = errors.Wrapf(err, reshapeFail, newShape, t.DataSize())
 				return
 			}
 
 			sum := newSumOp(along, newShape, len(newShape))
-			if d, err = sum.Do(d); err != nil {
+			if d, err = sum.Do(t); err != nil {
 				err = errors.Wrapf(err, doFail, sum)
 				return
 			}
-- 
2.43.0


From cd2a770bed04c788d5bb6f4f7f41f6773d2b2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:25 +0000
Subject: [PATCH 16/62] fix: do not evaluate a YOLO layer in the memory of its
 input

Outside training the layer reshaped, transposed and activated its input in
place, although it declares that it leaves its inputs alone. Every other user
of the input and every later run saw the changed value.
---
 op_yolo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/op_yolo.go b/op_yolo.go
index c7327a7..5740585 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -166,6 +166,8 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			}
 			currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
 		}
+		// the evaluation is done in place, on a copy: the input belongs to another node
+		inputTensor = inputTensor.Clone().(tensor.Tensor)
 		return op.evaluateYOLO_f32(inputTensor, batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
 	}
 
-- 
2.43.0


From fba3910348d191fb4fb2894222b3fecd22762929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:54 +0000
Subject: [PATCH 17/62] fix: do not modify a graph when asked for the users of
 a node

To stored a sorted copy of the list in the graph. Goroutines that only read the
same graph, for example to extract subgraphs or to build concurrent machines,
raced on it.
---
 graph.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graph.go b/graph.go
index 9709ca7..7fed748 100644
--- a/graph.go
+++ b/graph.go
@@ -617,10 +617,10 @@ func (g *ExprGraph) To(nid int64) graph.Nodes {
 		return nil
 	}
 
-	ns := g.to[n]
-	ns = ns.Set()
-	g.to[n] = ns
-	return nodeToGraphNode(ns)
+	// Set() sorts in place. A query must leave the graph as it is
+	ns := make(Nodes, len(g.to[n]))
+	copy(ns, g.to[n])
+	return nodeToGraphNode(ns.Set())
 }
 
 // subgraph is basically a subset of nodes. This is useful for compiling sub sections of the graph
-- 
2.43.0


From 862de73ade1a207b991310f20d3a172f7bd52e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:10 +0000
Subject: [PATCH 18/62] fix: do not repeat random numbers when the clock stands
 still

Weight initialisers, random nodes and dropout all seeded a generator
from the time of day. On a coarse or stopped clock several of them got
the same seed and so the same numbers. Mix a counter into every seed.
---
 nn.go      |  3 +--
 op_nn.go   | 13 ++++++-------
 weights.go | 29 +++++++++++++++++++----------
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/nn.go b/nn.go
index ee25fcb..8b6cff4 100644
--- a/nn.go
+++ b/nn.go
@@ -2,7 +2,6 @@ package gorgonia
 
 import (
 	"fmt"
-	"time"
 
 	rng "github.com/leesper/go_rng"
 	"github.com/pkg/errors"
@@ -69,7 +68,7 @@ func BinaryXent(output, target *Node) (retVal *Node, err error) {
 // It uses randomly zeroes out a *Tensor with a probability drawn from
 // a uniform distribution
 func Dropout(x *Node, dropProb float64) (retVal *Node, err error) {
-	rand := rng.NewUniformGenerator(time.Now().UnixNano())
+	rand := rng.NewUniformGenerator(newSeed())
 
 	op := newDropoutOp(dropProb, func() float64 { return rand.Float64Range(0, 1) })
 
diff --git a/op_nn.go b/op_nn.go
index 65dca26..023dcc7 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"runtime"
 	"sync"
-	"time"
 
 	"github.com/chewxy/hm"
 	"github.com/chewxy/math32"
@@ -84,25 +83,25 @@ func (op randomOp) Do(...Value) (retVal Value, err error) {
 		case Float64:
 			switch op.which {
 			case uniform:
-				rand := rng.NewUniformGenerator(time.Now().UnixNano())
+				rand := rng.NewUniformGenerator(newSeed())
 				v = rand.Float64Range(op.a, op.b)
 			case gaussian:
-				rand := rng.NewGaussianGenerator(time.Now().UnixNano())
+				rand := rng.NewGaussianGenerator(newSeed())
 				v = rand.Gaussian(op.a, op.b)
 			case binomial:
-				rand := rng.NewBinomialGenerator(time.Now().UnixNano())
+				rand := rng.NewBinomialGenerator(newSeed())
 				v = float64(rand.Binomial(int64(op.a), op.b))
 			}
 		case Float32:
 			switch op.which {
 			case uniform:
-				rand := rng.NewUniformGenerator(time.Now().UnixNano())
+				rand := rng.NewUniformGenerator(newSeed())
 				v = rand.Float32Range(float32(op.a), float32(op.b))
 			case gaussian:
-				rand := rng.NewGaussianGenerator(time.Now().UnixNano())
+				rand := rng.NewGaussianGenerator(newSeed())
 				v = float32(rand.Gaussian(op.a, op.b))
 			case binomial:
-				rand := rng.NewBinomialGenerator(time.Now().UnixNano())
+				rand := rng.NewBinomialGenerator(newSeed())
 				v = float32(rand.Binomial(int64(op.a), op.b))
 			}
 		default:
diff --git a/weights.go b/weights.go
index 1df5ac9..7b5da24 100644
--- a/weights.go
+++ b/weights.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync/atomic"
 	"time"
 
 	rng "github.com/leesper/go_rng"
@@ -14,6 +15,14 @@ import (
 // This file provides several weight initialization utility functions.
 // It uses the rng package by leesper
 
+// seedCount is the number of seeds handed out so far.
+var seedCount uint64
+
+// newSeed returns a seed that differs from the previous ones even when the clock hasn't moved since they were made.
+func newSeed() int64 {
+	return time.Now().UnixNano() + int64(atomic.AddUint64(&seedCount, 1)*0x9E3779B97F4A7C15)
+}
+
 // InitWFn is a type of helper function to help initialize weights vector/matrices.
 // It generates the backing required for the tensors.
 //
@@ -267,7 +276,7 @@ func HeU(gain float64) InitWFn {
 func Gaussian64(mean, stdev float64, s ...int) []float64 {
 	size := tensor.Shape(s).TotalSize()
 
-	rand := rng.NewGaussianGenerator(time.Now().UnixNano())
+	rand := rng.NewGaussianGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = rand.Gaussian(mean, stdev)
@@ -279,7 +288,7 @@ func Gaussian64(mean, stdev float64, s ...int) []float64 {
 func Gaussian32(mean, stdev float64, s ...int) []float32 {
 	size := tensor.Shape(s).TotalSize()
 
-	rand := rng.NewGaussianGenerator(time.Now().UnixNano())
+	rand := rng.NewGaussianGenerator(newSeed())
 	retVal := make([]float32, size)
 	for i := range retVal {
 		retVal[i] = float32(rand.Gaussian(mean, stdev))
@@ -291,7 +300,7 @@ func Gaussian32(mean, stdev float64, s ...int) []float32 {
 func Uniform64(low, high float64, s ...int) []float64 {
 	size := tensor.Shape(s).TotalSize()
 
-	rand := rng.NewUniformGenerator(time.Now().UnixNano())
+	rand := rng.NewUniformGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = rand.Float64Range(low, high)
@@ -305,7 +314,7 @@ func Uniform32(low, high float64, s ...int) []float32 {
 	l := float32(low)
 	h := float32(high)
 
-	rand := rng.NewUniformGenerator(time.Now().UnixNano())
+	rand := rng.NewUniformGenerator(newSeed())
 	retVal := make([]float32, size)
 	for i := range retVal {
 		retVal[i] = rand.Float32Range(l, h)
@@ -318,7 +327,7 @@ func Binomial64(trials, prob float64, s ...int) []float64 {
 	size := tensor.Shape(s).TotalSize()
 	t := int64(trials)
 
-	rand := rng.NewBinomialGenerator(time.Now().UnixNano())
+	rand := rng.NewBinomialGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = float64(rand.Binomial(t, prob))
@@ -331,7 +340,7 @@ func Binomial32(trials, prob float64, s ...int) []float32 {
 	size := tensor.Shape(s).TotalSize()
 	t := int64(trials)
 
-	rand := rng.NewBinomialGenerator(time.Now().UnixNano())
+	rand := rng.NewBinomialGenerator(newSeed())
 	retVal := make([]float32, size)
 	for i := range retVal {
 		retVal[i] = float32(rand.Binomial(t, prob))
@@ -366,7 +375,7 @@ func GlorotEtAlN64(gain float64, s ...int) []float64 {
 
 	stdev := gain * math.Sqrt(2.0/fanIn)
 
-	rand := rng.NewGaussianGenerator(time.Now().UnixNano())
+	rand := rng.NewGaussianGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = rand.Gaussian(0.0, stdev)
@@ -418,7 +427,7 @@ func GlorotEtAlU64(gain float64, s ...int) []float64 {
 	lo := 0.0 - math.Sqrt(3.0)*stdev
 	hi := 0.0 + math.Sqrt(3.0)*stdev
 
-	rand := rng.NewUniformGenerator(time.Now().UnixNano())
+	rand := rng.NewUniformGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = rand.Float64Range(lo, hi)
@@ -470,7 +479,7 @@ func HeEtAlN64(gain float64, s ...int) []float64 {
 	size := tensor.Shape(s).TotalSize()
 	stdev := gain * math.Sqrt(1.0/fanIn)
 
-	rand := rng.NewGaussianGenerator(time.Now().UnixNano())
+	rand := rng.NewGaussianGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = rand.Gaussian(0.0, stdev)
@@ -508,7 +517,7 @@ func HeEtAlU64(gain float64, s ...int) []float64 {
 	lo := 0.0 - math.Sqrt(3.0)*stdev
 	hi := 0.0 + math.Sqrt(3.0)*stdev
 
-	rand := rng.NewUniformGenerator(time.Now().UnixNano())
+	rand := rng.NewUniformGenerator(newSeed())
 	retVal := make([]float64, size)
 	for i := range retVal {
 		retVal[i] = rand.Float64Range(lo, hi)
-- 
2.43.0


From 56e2111433963b73ed799819f4423b98318a0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:57 +0000
Subject: [PATCH 19/62] fix: compute the hashes of shared constants before they
 are shared

Building gradients in two goroutines for two unrelated graphs raced on
the constants of the package: the first use stored their hash.
---
 const.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/const.go b/const.go
index b56e5f0..e21706b 100644
--- a/const.go
+++ b/const.go
@@ -131,4 +131,8 @@ func init() {
 		},
 	}
 
+	// The constants end up in graphs of different goroutines. Compute their hashes before there are any.
+	for _, n := range (Nodes{onef32, onef64, oneMoref32, oneMoref64, zerof32, zerof64, twof32, twof64, threef32, threef64, ln2f32, ln2f64}) {
+		n.Hashcode()
+	}
 }
-- 
2.43.0


From 6876844c4315b45c0dc0f6cdd2f9802c10844905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:46 +0000
Subject: [PATCH 20/62] fix: report a missing gradient instead of panicking in
 an optimiser step

Before the first successful run of a graph the gradient of a parameter
exists but has no value. Optimisers took that for a value and panicked.
Return the same error as for a parameter without gradient.
---
 solvers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solvers.go b/solvers.go
index c155358..c5d632c 100644
--- a/solvers.go
+++ b/solvers.go
@@ -48,7 +48,10 @@ func newCachedDV(n ValueGrad, weights, grad Value, zero bool) (cached *dualValue
 
 func extractWeightGrad(n ValueGrad) (weights, grad Value, err error) {
 	weights = n.Value()
-	if grad, err = n.Grad(); err != nil {
+	if grad, err = n.Grad(); err == nil && grad == nil {
+		err = errors.New("the gradient has no value yet")
+	}
+	if err != nil {
 		if nm, ok := n.(Namer); ok {
 			return weights, nil, errors.Wrapf(err, "No Grad found for %v", nm.Name())
 		}
-- 
2.43.0


From 1da473e82292c719616c583e1505114479b8aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:18 +0000
Subject: [PATCH 21/62] fix: do not count an optimiser step that cannot be
 taken

When a gradient was missing, Adam and AdamW had already counted the
step, which skewed the bias correction of all later steps. The
Barzilai-Borwein solver kept half-filled values of the previous step
and panicked in the next one. Look at all gradients first.
---
 solvers.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/solvers.go b/solvers.go
index c5d632c..600e7af 100644
--- a/solvers.go
+++ b/solvers.go
@@ -60,6 +60,16 @@ func extractWeightGrad(n ValueGrad) (weights, grad Value, err error) {
 	return
 }
 
+// checkGrads returns an error if the gradient of any of the parameters is not available.
+func checkGrads(model []ValueGrad) (err error) {
+	for _, n := range model {
+		if _, _, err = extractWeightGrad(n); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // SolverOpt is a function that provides construction options for a Solver
 type SolverOpt func(s Solver)
 
@@ -466,6 +476,11 @@ func (s *AdamSolver) Step(model []ValueGrad) (err error) {
 		s.cache = make([]*dualValue, len(model))
 	}
 
+	// a step that cannot be taken must not count as an iteration
+	if err = checkGrads(model); err != nil {
+		return err
+	}
+
 	s.iter++
 	correction1 := (1 - math.Pow(s.beta1, float64(s.iter)))
 	correction2 := (1 - math.Pow(s.beta2, float64(s.iter)))
@@ -1410,6 +1425,11 @@ func NewBarzilaiBorweinSolver(opts ...SolverOpt) *BarzilaiBorweinSolver {
 // This function will error out if the nodes do not have an associated Grad value.
 func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 
+	// a step that cannot be taken must leave the values of the previous step alone
+	if err = checkGrads(model); err != nil {
+		return err
+	}
+
 	firstRun := false
 	if s.prevDV == nil {
 		firstRun = true
@@ -1601,6 +1621,11 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 	        m  - the moving average (first moment)
 	        v  - the second momennt (MA squared)
 	*/
+	// a step that cannot be taken must not count as an iteration
+	if err = checkGrads(model); err != nil {
+		return err
+	}
+
 	a.iter++
 	for _, n := range model {
 		n := n.(*Node)
-- 
2.43.0


From f9121080a1357d73d6335f3aa9f99563980d3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:14 +0000
Subject: [PATCH 22/62] fix: leave the memory of unbound values to the garbage
 collector

Several nodes can be bound to one tensor: the tape machine binds nodes that
share a register to it, and a gradient is also the value of the node that
computes it. Unbinding the values of a graph gave such a tensor back to the
pool more than once, so that later graphs were given the same tensor for
different values.
---
 node.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/node.go b/node.go
index d0ab68f..15a7a64 100644
--- a/node.go
+++ b/node.go
@@ -721,21 +721,9 @@ func (n *Node) bindCopy(v Value) (err error) {
 	return nil
 }
 
-// unbind releases the values back to the pool
-func (n *Node) unbind() {
-	if n.boundTo == nil {
-		return
-	}
-
-	if dv, ok := n.boundTo.(*dualValue); ok {
-		returnDV(dv)
-	}
-
-	if t, ok := n.boundTo.(tensor.Tensor); ok {
-		returnTensor(t)
-	}
-	n.boundTo = nil
-}
+// unbind detaches the value from the node. The memory is left to the garbage collector: nodes that share a register
+// are bound to the same tensor, and so are a gradient and the node that computes it.
+func (n *Node) unbind() { n.boundTo = nil }
 
 func (n *Node) dotCluster() string {
 	var group string
-- 
2.43.0


From bac3da526655bea6c1a22b2f031eeede561d0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:15 +0000
Subject: [PATCH 23/62] fix: do not overwrite the operands of a comparison that
 gives booleans

The tape machine evaluated such a comparison in the memory of an operand that
was no longer needed. The booleans were written over the operand's numbers and
read back as numbers.
---
 op_math.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/op_math.go b/op_math.go
index 1cfc0f4..1a0a822 100644
--- a/op_math.go
+++ b/op_math.go
@@ -308,6 +308,10 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 func (op elemBinOp) ReturnsPtr() bool { return true }
 
 func (op elemBinOp) OverwritesInput() int {
+	if !op.isArith() && !op.retSame {
+		return -1 // the result is made of booleans, which do not fit in the memory of the operands
+	}
+
 	if _, ok := op.arg0.(TensorType); ok {
 		return 0
 	}
-- 
2.43.0


From b7306110b81d215a38b20507455e61d8c92d0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:21 +0000
Subject: [PATCH 24/62] fix: let the NaN and Inf watches pass integers and
 booleans

A virtual machine with one of the watches crashed the process when an
operation gave an integer or a boolean.
---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index ed7d394..ef71992 100644
--- a/utils.go
+++ b/utils.go
@@ -185,6 +185,8 @@ func hasInf(v Value, dev Device) bool {
 			}
 		}
 		return false
+	case *I, *I64, *I32, *U8, *B:
+		return false
 	case *dualValue:
 		return hasInf(vt.Value, dev) || hasInf(vt.d, dev)
 	default:
@@ -227,6 +229,8 @@ func hasNaN(v Value, dev Device) bool {
 			}
 		}
 		return false
+	case *I, *I64, *I32, *U8, *B:
+		return false
 	case *dualValue:
 		return hasNaN(vt.Value, dev) || hasNaN(vt.d, dev)
 	default:
-- 
2.43.0


From d5e2f9a832d74a351d581504ca6e86e0b9897815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:21 +0000
Subject: [PATCH 25/62] fix: watch for infinities in the lisp machine

The option was accepted and ignored. The values of random nodes were not
looked at, so the NaN watch blamed the operation that used them.
---
 vm_genera.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 0f84092..6d3147a 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -329,7 +329,7 @@ func (m *lispMachine) forward() (err error) {
 				return errors.Wrap(err, bindFail)
 			}
 
-			return
+			return m.checkValue(n.boundTo, n.dataOn)
 		default:
 			// do nothihng
 		}
@@ -504,15 +504,24 @@ func (m *lispMachine) forward() (err error) {
 	}
 	m.watchedLogf("Added to Queue")
 
-	if m.watchNaN() && !n.isStmt {
-		if hasNaN(n.boundTo, dev) {
-			return errors.New("NaN found in value")
-		}
+	if !n.isStmt {
+		return m.checkValue(n.boundTo, dev)
 	}
 
 	return
 }
 
+// checkValue returns an error if the value contains something that is being watched for.
+func (m *lispMachine) checkValue(v Value, dev Device) error {
+	if m.watchNaN() && hasNaN(v, dev) {
+		return errors.New("NaN found in value")
+	}
+	if m.watchInf() && hasInf(v, dev) {
+		return errors.New("Inf found in value")
+	}
+	return nil
+}
+
 func (m *lispMachine) backward() (err error) {
 	if m.bwd < 0 {
 		return errors.New("no backprop queue")
@@ -552,15 +561,13 @@ func (m *lispMachine) backward() (err error) {
 
 	m.leaveLogScope()
 
-	if m.watchNaN() {
-		if hasNaN(instr.output.boundTo, instr.ctx.Device) {
-			return errors.New("NaN found in value")
-		}
+	if err = m.checkValue(instr.output.boundTo, instr.ctx.Device); err != nil {
+		return err
+	}
 
-		for _, in := range instr.inputs {
-			if hasNaN(in.boundTo, instr.ctx.Device) {
-				return errors.New("NaN found in value")
-			}
+	for _, in := range instr.inputs {
+		if err = m.checkValue(in.boundTo, instr.ctx.Device); err != nil {
+			return err
 		}
 	}
 	return
-- 
2.43.0


From e1324bb12df032ca7e97a0891f1bffe01f78bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:12 +0000
Subject: [PATCH 26/62] fix: compile a part of a graph that has no inputs

Compiling a program for results that depend on constants only panicked.
---
 compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index cf693c3..a8730de 100644
--- a/compile.go
+++ b/compile.go
@@ -136,7 +136,7 @@ func newCodeGenerator(inputs, sorted Nodes, df *dataflow) *codegenerator {
 		instrMap:   make(map[*Node]fragment),
 		lastReads:  make(map[register]int),
 
-		g:      inputs[0].g,
+		g:      sorted[0].g,
 		inputs: inputs,
 		sorted: sorted,
 		df:     df,
-- 
2.43.0


From 27a1eb2a4e2a5145622674eb8ccfcc7896aa518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:16 +0000
Subject: [PATCH 27/62] fix: read a copy of the value in the lisp machine

A value read out of a graph run by the lisp machine was the node's own
value. An optimiser step on a parameter changed what had been read.
The tape machine already reads a copy.
---
 vm_genera.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 6d3147a..aca3f27 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -433,9 +433,11 @@ func (m *lispMachine) forward() (err error) {
 
 			} else {
 				if dv, ok := childVal.(*dualValue); ok {
-					*ot.into = dv.Value
-				} else {
-					*ot.into = childVal
+					childVal = dv.Value
+				}
+				// like the tape machine, read a copy: the node's value may be changed later
+				if *ot.into, err = CloneValue(childVal); err != nil {
+					return errors.Wrap(err, cloneFail)
 				}
 			}
 		}
-- 
2.43.0


From a0b9afa34f07797890e261834bf0f951f3d5b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:10 +0000
Subject: [PATCH 28/62] fix: do not modify nodes when a graph is rendered

---
 node.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 15a7a64..5b1dfdc 100644
--- a/node.go
+++ b/node.go
@@ -257,15 +257,16 @@ func (n *Node) Groups() encoding.Groups {
 		_, isConst = n.op.(constant)
 	}
 
+	// the node itself is left alone: it may be read by several goroutines
+	groups := append(encoding.Groups(nil), n.groups...)
 	switch {
 	case isConst:
-		n.groups = n.groups.Upsert(encoding.ConstantCluster)
+		return groups.Upsert(encoding.ConstantCluster)
 	case isInput:
-		n.groups = n.groups.Upsert(encoding.InputCluster)
+		return groups.Upsert(encoding.InputCluster)
 	default:
-		n.groups = n.groups.Upsert(encoding.ExprGraphCluster)
+		return groups.Upsert(encoding.ExprGraphCluster)
 	}
-	return n.groups
 }
 
 func newNode(opts ...NodeConsOpt) *Node {
-- 
2.43.0


From 28edc0364d10b8eb57d5a23281a249c376ed06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:10 +0000
Subject: [PATCH 29/62] fix: render a part of a graph that has derivatives of
 other nodes

---
 graph.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/graph.go b/graph.go
index 7fed748..a5433b2 100644
--- a/graph.go
+++ b/graph.go
@@ -401,17 +401,16 @@ func (g *ExprGraph) ToDot() string {
 			"weight":     "999",
 		}
 
-		for _, n := range g.byHash {
-			if n == nil {
-				// collision found... what to do?
-				continue
-			}
+		for _, n := range g.all {
 			if n.derivOf != nil {
 				id := fmt.Sprintf("Node_%p", n)
 				for _, derivOf := range n.derivOf {
 					if _, ok := g.to[derivOf]; !ok {
 						continue
 					}
+					if !g.all.Contains(derivOf) {
+						continue // not in the part that is shown
+					}
 					ofID := fmt.Sprintf("Node_%p", derivOf)
 					// gv.AddPortEdge(id, ":anchor:w", ofID, ofID+":anchor:e", true, edgeAttrs)
 					gv.AddEdge(id, ofID, true, edgeAttrs)
-- 
2.43.0


From 99543e22f81e0eecc3a28cb9a2ee0adcdb3a7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:18 +0000
Subject: [PATCH 30/62] fix: look up nodes of a graph without modifying it

---
 graph.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index a5433b2..d0285c2 100644
--- a/graph.go
+++ b/graph.go
@@ -92,6 +92,9 @@ func (g *ExprGraph) Clone() interface{} {
 	}
 
 	g2.byID = make(map[int64]int)
+	for i, n := range g2.all {
+		g2.byID[n.id] = i
+	}
 	g2.byHash = make(map[uint32]*Node)
 	for k, v := range g.byHash {
 		g2.byHash[k] = mapping[v]
@@ -189,6 +192,7 @@ func (g *ExprGraph) addToAll(n *Node) {
 	if n == nil {
 		panic("HELP! trying to add nil")
 	}
+	g.byID[int64(g.counter)] = len(g.all)
 	g.all = append(g.all, n)
 	n.id = int64(g.counter)
 	g.counter++
@@ -526,15 +530,13 @@ func (g *ExprGraph) Node(id int64) graph.Node {
 }
 
 func (g *ExprGraph) node(id int64) *Node {
-	if idx, ok := g.byID[id]; ok {
-		if idx >= len(g.all) {
-			return nil
-		}
+	if idx, ok := g.byID[id]; ok && idx < len(g.all) && g.all[idx].id == id {
 		return g.all[idx]
 	}
-	for i, n := range g.all {
+	// nodes move when others are removed. The index is not updated here,
+	// because a graph may be read by several goroutines.
+	for _, n := range g.all {
 		if n.id == id {
-			g.byID[id] = i
 			return n
 		}
 	}
@@ -698,6 +700,9 @@ func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGra
 		constants: g.constants,
 		roots:     roots,
 	}
+	for i, n := range ns {
+		retVal.byID[n.id] = i
+	}
 
 	return retVal
 }
-- 
2.43.0


From ca56199b9c719e02679c2c0c266bb73d8ccb0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:56 +0000
Subject: [PATCH 31/62] fix: keep the free list of the CUDA allocator linked
 when blocks are merged

Merging two free blocks left the block after them pointing back at a block that
was no longer in the list. Taking that block out of the list later damaged the
list: memory was given out twice, or the allocator crashed.
---
 cuda/bfc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuda/bfc.go b/cuda/bfc.go
index 95a2a5c..4e7966c 100644
--- a/cuda/bfc.go
+++ b/cuda/bfc.go
@@ -435,6 +435,9 @@ func (b *bfc) coalesce() {
 			case block.cap() == next.address:
 				block.size += next.size
 				block.next = next.next
+				if next.next != nil {
+					next.next.prev = block
+				}
 				next.next = nil
 				next.prev = nil // kill i
 
-- 
2.43.0


From ae00ca7a7cc77449ed744105fa55750b7a4d7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:32 +0000
Subject: [PATCH 32/62] fix: close a CUDA engine that has just been started or
 could not be started

Close held the lock that the serving goroutine takes first and waited for that
goroutine: closing an engine right after Init could hang. Init calls Close when
it fails half way; it hung as well, because nothing serves the engine then.
---
 cuda/external.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/cuda/external.go b/cuda/external.go
index 3fa24e0..f369a3e 100644
--- a/cuda/external.go
+++ b/cuda/external.go
@@ -165,7 +165,8 @@ func (e *Engine) doInit(size int64) (err error) {
 	}
 	e.a.reserve(uintptr(ptr), allocsize)
 	e.n = *(cudnn.NewContext())
-	go e.Run()
+	e.running = true
+	go e.run()
 	return nil
 }
 
@@ -192,16 +193,19 @@ func (e *Engine) Close() error {
 	}
 	e.a.reset()
 
-	closeB := func() error { return e.b.Close() }
+	// the libraries are closed by the goroutine that serves the engine, which is only started when Init succeeds
+	if e.running {
+		closeB := func() error { return e.b.Close() }
 
-	if err := e.c.Do(closeB); err != nil {
-		return errors.Wrap(e.err, "Failed to close cuBLAS context")
-	}
+		if err := e.c.Do(closeB); err != nil {
+			return errors.Wrap(e.err, "Failed to close cuBLAS context")
+		}
 
-	closeN := func() error { return e.n.Close() }
+		closeN := func() error { return e.n.Close() }
 
-	if err := e.c.Do(closeN); err != nil {
-		return errors.Wrap(e.err, "Failed to close cuDNN context")
+		if err := e.c.Do(closeN); err != nil {
+			return errors.Wrap(e.err, "Failed to close cuDNN context")
+		}
 	}
 
 	if e.workAvailable != nil {
@@ -212,9 +216,12 @@ func (e *Engine) Close() error {
 		return errors.Wrapf(err, "Failed to cloes CUDA Context ")
 	}
 
-	runtime.Gosched() // make sure everyone has a fair play
-	e.finishChan <- struct{}{}
-	e.finishChan2 <- struct{}{} // wait
+	if e.running {
+		runtime.Gosched() // make sure everyone has a fair play
+		e.finishChan <- struct{}{}
+		e.finishChan2 <- struct{}{} // wait
+	}
+	e.running = false
 	e.initialized = false
 	return nil
 }
@@ -232,8 +239,13 @@ func (e *Engine) Run() {
 		e.Unlock()
 		return
 	}
+	e.running = true
 	e.Unlock()
+	e.run()
+}
 
+// run must not take the lock before it serves: Close holds it while it waits to be served
+func (e *Engine) run() {
 	runtime.LockOSThread()
 	defer runtime.UnlockOSThread()
 
-- 
2.43.0


From 843973a55f1f6c868c2f7bf57e0d6f6dbc75b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:27 +0000
Subject: [PATCH 33/62] fix: report failures of a CUDA engine and close it
 completely

The serving goroutine ended when a piece of work failed, and everything that was
asked of the engine later waited for ever, Close included. Close stopped at the
first thing that could not be closed, in two cases without an error, and an
engine could not be started again after that. It also freed the memory of a
closed engine again if the engine could not be restarted.
---
 cuda/engine.go   |  1 -
 cuda/external.go | 47 ++++++++++++++++++-----------------------------
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/cuda/engine.go b/cuda/engine.go
index 445e513..d7a9b00 100644
--- a/cuda/engine.go
+++ b/cuda/engine.go
@@ -63,7 +63,6 @@ type Engine struct {
 	finishChan    chan struct{}
 	finishChan2   chan struct{}
 	workAvailable chan bool
-	err           error
 	initialized   bool
 	running       bool
 }
diff --git a/cuda/external.go b/cuda/external.go
index f369a3e..376dde3 100644
--- a/cuda/external.go
+++ b/cuda/external.go
@@ -170,8 +170,9 @@ func (e *Engine) doInit(size int64) (err error) {
 	return nil
 }
 
-// Close cleans up the machine, and closes all available resources
-func (e *Engine) Close() error {
+// Close cleans up the machine, and closes all available resources. If something cannot be closed, the rest still is,
+// and the first error is returned.
+func (e *Engine) Close() (err error) {
 	e.Lock()
 	defer e.Unlock()
 	e.c.Cleanup() // frees all ancillary allocations in C land
@@ -182,14 +183,16 @@ func (e *Engine) Close() error {
 
 	// Unload all modules (and consequently all functions)
 	for name, mod := range e.m {
-		if err := mod.Unload(); err != nil {
-			return errors.Wrapf(err, "Failed to unload module %v", name)
+		if err2 := mod.Unload(); err2 != nil && err == nil {
+			err = errors.Wrapf(err2, "Failed to unload module %v", name)
 		}
 	}
+	e.m = nil
+	e.f = nil
 
 	// Free all CUDA memory
 	if e.a.start != 0 {
-		cu.MemFree(cu.DevicePtr(e.a.start))
+		cu.MemFree(cu.DevicePtr(e.a.release()))
 	}
 	e.a.reset()
 
@@ -197,14 +200,14 @@ func (e *Engine) Close() error {
 	if e.running {
 		closeB := func() error { return e.b.Close() }
 
-		if err := e.c.Do(closeB); err != nil {
-			return errors.Wrap(e.err, "Failed to close cuBLAS context")
+		if err2 := e.c.Do(closeB); err2 != nil && err == nil {
+			err = errors.Wrap(err2, "Failed to close cuBLAS context")
 		}
 
 		closeN := func() error { return e.n.Close() }
 
-		if err := e.c.Do(closeN); err != nil {
-			return errors.Wrap(e.err, "Failed to close cuDNN context")
+		if err2 := e.c.Do(closeN); err2 != nil && err == nil {
+			err = errors.Wrap(err2, "Failed to close cuDNN context")
 		}
 	}
 
@@ -212,8 +215,8 @@ func (e *Engine) Close() error {
 		close(e.workAvailable)
 	}
 
-	if err := e.c.Close(); err != nil {
-		return errors.Wrapf(err, "Failed to cloes CUDA Context ")
+	if err2 := e.c.Close(); err2 != nil && err == nil {
+		err = errors.Wrapf(err2, "Failed to cloes CUDA Context ")
 	}
 
 	if e.running {
@@ -221,9 +224,10 @@ func (e *Engine) Close() error {
 		e.finishChan <- struct{}{}
 		e.finishChan2 <- struct{}{} // wait
 	}
+	e.c = cu.BatchedContext{} // there is nothing left to close
 	e.running = false
 	e.initialized = false
-	return nil
+	return err
 }
 
 // DoWork sends a signal to the batched CUDA Context to actually do work
@@ -257,28 +261,13 @@ func (e *Engine) run() {
 
 loop:
 	for {
+		// failures are reported to whoever asked for the work. The engine is served until it is closed.
 		select {
 		case <-e.c.WorkAvailable():
 			e.c.DoWork()
-			if err := e.c.Errors(); err != nil {
-				e.Lock()
-				e.err = err
-				e.running = false
-				e.Unlock()
-				break loop
-			}
 		case w := <-e.c.Work():
 			if w != nil {
-				err := w()
-				e.c.ErrChan() <- err
-
-				if err != nil {
-					e.Lock()
-					e.err = err
-					e.running = false
-					e.Unlock()
-					break loop
-				}
+				e.c.ErrChan() <- w()
 			}
 		case <-e.finishChan:
 			break loop
-- 
2.43.0


From 94845869c3a8bf1a5b0f1a1eb7c69804851f088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:42:49 +0000
Subject: [PATCH 34/62] fix: do not keep the roots of a graph that may still
 grow

Roots() remembered its first answer. When the graph was extended
afterwards, the lisp machine refused valid graphs or seeded gradients at
nodes that are no longer roots, and two goroutines asking for the roots
of one graph raced. A cloned graph had no roots at all.
---
 graph.go     | 3 +--
 vm_genera.go | 8 +++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/graph.go b/graph.go
index d0285c2..8f33d40 100644
--- a/graph.go
+++ b/graph.go
@@ -239,7 +239,7 @@ func (g *ExprGraph) SetEdge(e graph.Edge) {
 // Roots returns a list of nodes that are not children of any other nodes
 func (g *ExprGraph) Roots() (retVal Nodes) {
 	// handle subgraph
-	if g.roots != nil {
+	if len(g.roots) > 0 {
 		return g.roots
 	}
 
@@ -255,7 +255,6 @@ func (g *ExprGraph) Roots() (retVal Nodes) {
 			}
 		}
 	}
-	g.roots = retVal
 	return retVal
 }
 
diff --git a/vm_genera.go b/vm_genera.go
index aca3f27..10b3c4b 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -23,6 +23,7 @@ type lispMachine struct {
 
 	// state stuff, to allow continuation
 	sorted Nodes
+	roots  Nodes
 	df     *dataflow
 	fwd    int
 	bwd    int
@@ -228,8 +229,9 @@ backward:
 func (m *lispMachine) checkRoots() (err error) {
 	if !m.checkedRoots && m.runBwd() {
 		machineLogf("Checking if provided graph is sensible")
-		m.logf("roots: %v", m.g.Roots())
-		for _, root := range m.g.Roots() {
+		m.roots = m.g.Roots()
+		m.logf("roots: %v", m.roots)
+		for _, root := range m.roots {
 			switch {
 			case m.setRootGrad() && !root.isStmt:
 				// check root's value
@@ -391,7 +393,7 @@ func (m *lispMachine) forward() (err error) {
 	m.watchedLogf(m.valueFmt, n.boundTo)
 
 	switch {
-	case (m.g.roots.Contains(n) || n.isRoot()) && !n.isStmt:
+	case (m.roots.Contains(n) || m.g.roots.Contains(n) || n.isRoot()) && !n.isStmt:
 		machineLogf("Applying op %v to root", op)
 		if n.boundTo == nil {
 			machineLogf("dvBindVar")
-- 
2.43.0


From a44db20fa5d75ab25bef5ceb696ca90422e0351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:12 +0000
Subject: [PATCH 35/62] fix: return the graph of everything a single node
 depends on

Subgraph with one node is documented to treat it as the root, but the
result of doing so was thrown away and a graph of the node alone was
returned.
---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 8f33d40..de9180b 100644
--- a/graph.go
+++ b/graph.go
@@ -710,7 +710,7 @@ func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGra
 // otherwise, it treats ns as the subset of nodes to be included in the subgraph
 func (g *ExprGraph) Subgraph(ns ...*Node) *ExprGraph {
 	if len(ns) == 1 {
-		g.SubgraphRoots(ns[0])
+		return g.SubgraphRoots(ns[0])
 	}
 	return g.subgraph(ns, true)
 }
-- 
2.43.0


From 8f333639d4f21d495d23409afd1ad195fbb4ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:26 +0000
Subject: [PATCH 36/62] fix: differentiate graphs that already hold gradients
 of softmax

The gradient operation inherited the list of differentiable inputs of
softmax, which panics for the three inputs it has. Differentiating a graph
again, for example after an attempt that failed, crashed.
---
 op_softmax.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_softmax.go b/op_softmax.go
index db647cb..e43d99b 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -179,6 +179,9 @@ type softmaxDiffOp struct {
 
 func (op *softmaxDiffOp) Arity() int { return 3 }
 
+// DiffWRT is not that of the embedded operation: it has other inputs and no derivative.
+func (op *softmaxDiffOp) DiffWRT(inputs int) []bool { return make([]bool, inputs) }
+
 func (op *softmaxDiffOp) ReturnsPtr() bool { return false }
 
 func (op *softmaxDiffOp) CallsExtern() bool { return false }
-- 
2.43.0


From 087fcddf0046a278323cf8e9155d17c5c1df0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:23 +0000
Subject: [PATCH 37/62] fix: forget the derivatives of a differentiation that
 failed

Nodes kept the derivatives found before the failure. A later
differentiation took them for finished ones and returned an error or the
derivatives of another expression.
---
 differentiation.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/differentiation.go b/differentiation.go
index 3dd4655..260440a 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -204,6 +204,18 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 	// "pullback" function to backpropagate derivatives
 	activeNodes := affectsOutput.Intersect(affectedByOutput)
 
+	// the derivatives found before a failure are incomplete
+	var differentiated Nodes
+	defer func() {
+		if err == nil {
+			return
+		}
+		for _, n := range differentiated {
+			n.deriv.derivOf = n.deriv.derivOf.remove(n)
+			n.deriv = nil
+		}
+	}()
+
 	symdiffLogf("Active: %v", activeNodes)
 
 	symdiffLogf("Sorted: %d", sortedNodes)
@@ -262,6 +274,7 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 			deriv.derivOf = append(deriv.derivOf, node)
 			node.deriv = deriv
 		}
+		differentiated = append(differentiated, node)
 
 		gradNode := nodeGradMap[node][0]
 		if !node.isInput() {
-- 
2.43.0


From 292f1d310c6b8924bf52c85d20bb09f543795b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:21 +0000
Subject: [PATCH 38/62] fix: do not take softmax and log softmax of a node for
 the same

Both wrote the same hash, so the second one asked for returned the first.
---
 op_softmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index e43d99b..7a1005d 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -49,7 +49,7 @@ func (op *softmaxOp) ReturnsPtr() bool { return false }
 
 func (op *softmaxOp) CallsExtern() bool { return false }
 
-func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v}()", op.axis) }
+func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 90d4e1bc938189ba629d35e1a1b5f75dc9f9d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:05 +0000
Subject: [PATCH 39/62] fix: do not write the constants that graphs share when
 a machine is traced

A traced tape machine copied the value of a constant over itself when the
node was already bound.  The library's own constants are shared by all
graphs, so this was a data race with every other graph that reads them.
---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index 5b1dfdc..a663bdf 100644
--- a/node.go
+++ b/node.go
@@ -684,6 +684,10 @@ func (n *Node) bind(v Value) error {
 
 // bindCopy copies the value if to the bound value.
 func (n *Node) bindCopy(v Value) (err error) {
+	if n.isConstant() {
+		return n.bind(v) // constants are shared between graphs. They never change, so there is nothing to copy.
+	}
+
 	if n.boundTo == nil {
 		var cloned Value
 		if cloned, err = CloneValue(v); err != nil {
-- 
2.43.0


From 177cd18b8bda522d8ca3091852be0180384145a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:11 +0000
Subject: [PATCH 40/62] fix: copy constants into the graph also when hash codes
 collide

A constant whose hash code another node has was added to the graph itself.
The library's constants are shared by all graphs, and they belong to none,
so building expressions with it failed or changed other graphs.
---
 graph.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index de9180b..12790b6 100644
--- a/graph.go
+++ b/graph.go
@@ -160,6 +160,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 					return e
 				}
 			}
+			n = g.ownConstant(n)
 			g.evac[hash] = append(g.evac[hash], n)
 			g.addToAll(n)
 			incrCC() // collision counter
@@ -167,6 +168,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		}
 
 		if !nodeEq(n, existing) {
+			n = g.ownConstant(n)
 			g.evac[hash] = Nodes{existing, n}
 			g.byHash[hash] = nil // to signal that it's collided
 			g.addToAll(n)
@@ -177,14 +179,19 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		return existing
 	}
 
+	n = g.ownConstant(n)
+	g.addToAll(n)
+	g.byHash[hash] = n
+	return n
+}
+
+// ownConstant returns the graph's own copy of n if it is a constant, which may be shared with other graphs
+func (g *ExprGraph) ownConstant(n *Node) *Node {
 	if n.isConstant() {
 		n = n.clone()
 		g.constants = g.constants.Add(n)
 		n.g = g
 	}
-
-	g.addToAll(n)
-	g.byHash[hash] = n
 	return n
 }
 
-- 
2.43.0


From cdf0b1319fae9f29790d15228a4642d471d7254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:33 +0000
Subject: [PATCH 41/62] fix: compare operands when hash codes of nodes collide

Nodes with the same hash code were taken for equal when their operations
were, whatever the operands.
---
 equalities.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/equalities.go b/equalities.go
index 85b6d68..93569dd 100644
--- a/equalities.go
+++ b/equalities.go
@@ -185,7 +185,7 @@ func nodeEq(a, b *Node) bool {
 		if !b.isInput() {
 			return false
 		}
-		return a.name == b.name
+		return a.name == b.name && a.t == b.t && a.shape.Eq(b.shape)
 	}
 
 	if b.isInput() {
@@ -209,5 +209,11 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	for i, child := range a.children {
+		if child != b.children[i] {
+			return false
+		}
+	}
+
 	return true
 }
-- 
2.43.0


From 944e2389a15103c39f48b3dc8cdd57f9e77c9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:49 +0000
Subject: [PATCH 42/62] fix: do not compile a node as another one whose hash
 code it has

The instructions of a node were replaced by those of any other node with the
same 32 bit hash code.
---
 analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis.go b/analysis.go
index aec5f39..b99c2bf 100644
--- a/analysis.go
+++ b/analysis.go
@@ -35,7 +35,7 @@ func (df *dataflow) vn(n *Node) (retVal *Node, unique bool) {
 
 	node, ok := df.uniques[n.Hashcode()]
 
-	if ok {
+	if ok && nodeEq(node, n) {
 		return node, false
 	}
 
-- 
2.43.0


From c51011faca897190ca9b605edf821fe0f6c662b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:59:34 +0000
Subject: [PATCH 43/62] fix: keep sharing expressions whose hash code a removed
 node had

Removing a node from a graph forgot that other nodes have the same hash
code, and these were added again by the next equal expression.
---
 graph.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 12790b6..64cdf00 100644
--- a/graph.go
+++ b/graph.go
@@ -215,7 +215,9 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 
 	hash := n.Hashcode()
 
-	delete(g.byHash, hash)
+	if g.byHash[hash] == n {
+		delete(g.byHash, hash) // otherwise other nodes have the same hash code
+	}
 	delete(g.to, n)
 	g.evac[hash] = g.evac[hash].remove(n)
 	g.all = g.all.remove(n)
-- 
2.43.0


From 03a5763f57f8b9dcf2f8e010ca291eecb538e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:57 +0000
Subject: [PATCH 44/62] fix: write every parameter of an operation into its
 hash

Sparsemax, group normalization, the CTC loss, unrolled images, batch
normalization, dropout and YOLO left parameters out of their hashes or
rounded them. Two such expressions over the same operands were taken for
one, and the second had the value of the first.
---
 op_ctc_loss.go   | 4 ++--
 op_dropout.go    | 4 +++-
 op_group_norm.go | 4 ++--
 op_nn.go         | 8 ++++----
 op_sparsemax.go  | 2 +-
 op_yolo.go       | 2 +-
 6 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 08288be..65aa4ec 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -57,7 +57,7 @@ func (op *ctcLossOp) ReturnsPtr() bool { return false }
 func (op *ctcLossOp) CallsExtern() bool { return false }
 
 func (op *ctcLossOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "CTCLoss{}()")
+	fmt.Fprintf(h, "CTCLoss{%v}()", op.reduction)
 }
 
 func (op *ctcLossOp) Hashcode() uint32 { return simpleHash(op) }
@@ -520,7 +520,7 @@ type ctcLossDiffOp struct {
 func (op *ctcLossDiffOp) Arity() int { return 5 }
 
 func (op *ctcLossDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "ctcLossDiff{%v}()", op.reduction)
 }
 
 func (op *ctcLossDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_dropout.go b/op_dropout.go
index de2ecfd..f660af8 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -37,7 +37,9 @@ func (op *dropoutOp) ReturnsPtr() bool { return false }
 
 func (op *dropoutOp) CallsExtern() bool { return false }
 
-func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, op.String()) }
+func (op *dropoutOp) WriteHash(h hash.Hash) {
+	fmt.Fprintf(h, "%v probability: %v", op, op.probability)
+}
 
 func (op *dropoutOp) Hashcode() uint32 { return simpleHash(op) }
 
diff --git a/op_group_norm.go b/op_group_norm.go
index 2bdd7d1..fe6d1f5 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -68,7 +68,7 @@ func (op *GroupNormOp) ReturnsPtr() bool { return false }
 func (op *GroupNormOp) CallsExtern() bool { return false }
 
 func (op *GroupNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v epsilon: %v", op, op.epsilon)
 }
 
 func (op *GroupNormOp) Hashcode() uint32 { return simpleHash(op) }
@@ -520,7 +520,7 @@ func (op *groupNormDiffOp) ReturnsPtr() bool { return false }
 func (op *groupNormDiffOp) CallsExtern() bool { return false }
 
 func (op *groupNormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v epsilon: %v", op, op.epsilon)
 }
 
 func (op *groupNormDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_nn.go b/op_nn.go
index 023dcc7..8662f3e 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -224,7 +224,7 @@ func (op im2colOp) CallsExtern() bool    { return false }
 func (op im2colOp) OverwritesInput() int { return -1 }
 
 func (op im2colOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op im2colOp) Hashcode() uint32 { return simpleHash(op) }
@@ -484,7 +484,7 @@ func (op col2imOp) CallsExtern() bool    { return false }
 func (op col2imOp) OverwritesInput() int { return -1 }
 
 func (op col2imOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op col2imOp) Hashcode() uint32 { return simpleHash(op) }
@@ -1219,7 +1219,7 @@ func (op *BatchNormOp) OverwritesInput() int { return -1 }
 
 // WriteHash ...
 func (op *BatchNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnorm-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnorm-%v-%v", op.momentum, op.epsilon)
 }
 
 // Hashcode ...
@@ -1676,7 +1676,7 @@ func (op *batchnormDiffOp) Do(values ...Value) (Value, error) {
 // OverwritesInput is the same exact characteristics of batchnorm
 
 func (op *batchnormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnormdiff-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnormdiff-%v-%v", op.momentum, op.epsilon)
 }
 
 func (op *batchnormDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_sparsemax.go b/op_sparsemax.go
index e1aebac..aecc477 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -44,7 +44,7 @@ func (op *sparsemaxOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "Sparsemax{}()")
+	fmt.Fprintf(h, "Sparsemax{%d}()", op.axis)
 }
 
 func (op *sparsemaxOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_yolo.go b/op_yolo.go
index 5740585..21da945 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -69,7 +69,7 @@ func (op *yoloOp) ReturnsPtr() bool { return false }
 func (op *yoloOp) CallsExtern() bool { return false }
 
 func (op *yoloOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "YOLO{}(anchors: (%v))", op.anchors)
+	fmt.Fprintf(h, "YOLO{}(anchors: (%v)) %v %v %v %v %v", op.anchors, op.masks, op.ignoreTresh, op.dimensions, op.numClasses, op.trainMode)
 }
 func (op *yoloOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From ceb58a3cfecf0bbd953c8f18ad77ff3de1549d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:57 +0000
Subject: [PATCH 45/62] fix: tell constants apart by their values

A graph took two constants for one when they had the same name. Names are
printed values by default, and these are the same for 1 as float32 and as
float64, and for large tensors that differ in elements that are not printed.
---
 equalities.go | 6 ++++++
 graph.go      | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/equalities.go b/equalities.go
index 93569dd..d133ff5 100644
--- a/equalities.go
+++ b/equalities.go
@@ -209,6 +209,12 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	// the hashcodes of constants only cover what is printed of their values
+	if ac, ok := a.op.(constant); ok {
+		bc, ok := b.op.(constant)
+		return ok && ValueEq(ac.Value(), bc.Value())
+	}
+
 	for i, child := range a.children {
 		if child != b.children[i] {
 			return false
diff --git a/graph.go b/graph.go
index 64cdf00..4219ae7 100644
--- a/graph.go
+++ b/graph.go
@@ -143,10 +143,10 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 			g.to[retVal] = nil
 		}
 	}()
-	// check for node with the same name in the graph
+	// check for an equal constant with the same name in the graph
 	// we don't update the graph if this is the case
 	for _, node := range g.constants {
-		if node.name == n.name && n.isConstant() {
+		if node.name == n.name && n.isConstant() && nodeEq(n, node) {
 			return node
 		}
 	}
-- 
2.43.0


From f9f47cdd206353ae7553c1ec71bac25774a4c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:14:51 +0000
Subject: [PATCH 46/62] fix: give constant tensors no operands

The concurrent machine waited for an operand of every constant tensor and
never finished executing a graph that had one.
---
 op.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op.go b/op.go
index 671a5ff..e89a9f5 100644
--- a/op.go
+++ b/op.go
@@ -265,7 +265,7 @@ type constantTensor struct {
 	v tensor.Tensor
 }
 
-func (c constantTensor) Arity() int                                   { return 1 }
+func (c constantTensor) Arity() int                                   { return 0 }
 func (c constantTensor) Type() hm.Type                                { return TypeOf(c.v) }
 func (c constantTensor) InferShape(...DimSizer) (tensor.Shape, error) { return c.v.Shape(), nil }
 
-- 
2.43.0


From e3ecb06fa8bbf619432951649e964c25aef04008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:18:07 +0000
Subject: [PATCH 47/62] fix: tell random nodes with different parameters apart

Random nodes were identified by type, shape and name only, so a uniform and
a gaussian node of one shape were the same node.
---
 equalities.go | 3 +++
 node.go       | 3 ++-
 op_nn.go      | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/equalities.go b/equalities.go
index d133ff5..d925e87 100644
--- a/equalities.go
+++ b/equalities.go
@@ -185,6 +185,9 @@ func nodeEq(a, b *Node) bool {
 		if !b.isInput() {
 			return false
 		}
+		if a.isRandom() != b.isRandom() || a.isRandom() && a.op.Hashcode() != b.op.Hashcode() {
+			return false
+		}
 		return a.name == b.name && a.t == b.t && a.shape.Eq(b.shape)
 	}
 
diff --git a/node.go b/node.go
index a663bdf..9534c17 100644
--- a/node.go
+++ b/node.go
@@ -540,7 +540,8 @@ func (n *Node) WriteHash(h hash.Hash32) {
 
 	if n.isInput() {
 		h.Write([]byte(n.name))
-	} else {
+	}
+	if n.op != nil {
 
 		n.op.WriteHash(h)
 	}
diff --git a/op_nn.go b/op_nn.go
index 8662f3e..149bac0 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -148,7 +148,7 @@ func (op randomOp) ReturnsPtr() bool     { return false }
 func (op randomOp) CallsExtern() bool    { return false }
 func (op randomOp) OverwritesInput() int { return -1 }
 func (op randomOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "%d%v%f%f", op.which, op.shape, op.a, op.b)
+	fmt.Fprintf(h, "%d%v%v,%v", op.which, op.shape, op.a, op.b)
 }
 
 func (op randomOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From d567fc13da1c6caad74d845422692c35d2c3989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:46 +0000
Subject: [PATCH 48/62] fix: print all nodes of a graph

Nodes whose hash codes coincide were left out of the text of a graph, and
printing it panicked.
---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 4219ae7..4096838 100644
--- a/graph.go
+++ b/graph.go
@@ -322,7 +322,7 @@ func (g *ExprGraph) Constant(v Value) *Node {
 func (g *ExprGraph) String() string {
 	var buf bytes.Buffer
 	buf.WriteString("Graph: [\n")
-	for _, n := range g.byHash {
+	for _, n := range g.all {
 		fmt.Fprintf(&buf, "\t%d: %s\n", n.Hashcode(), n)
 	}
 	buf.WriteString("]")
-- 
2.43.0


From 07e6adfcd8ce4bbaf25866fbe7c9cfd5af1b9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:18 +0000
Subject: [PATCH 49/62] fix: tell slices apart whose bounds differ by 256

The hash of a slice kept only the low byte of each bound. Two slices of a
long vector whose bounds differ by a multiple of 256 became one node.
---
 op_tensor.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 17f2d54..6d917c3 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -623,13 +623,13 @@ func (op sliceOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
@@ -824,13 +824,13 @@ func (op sliceIncrOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 29fc6c4b9a3b1130c69f0cf8c1a0531317fd0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:52 +0000
Subject: [PATCH 50/62] fix: do not share the memory of a scalar with its
 reshaped copy

Reshaping a scalar gave a tensor on the memory of the scalar. If the scalar
is a constant of the library, a traced machine then wrote memory that other
graphs read.
---
 op_tensor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 6d917c3..d1fca65 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1180,7 +1180,11 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		}
 		return val, nil
 	case Scalar:
-		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
+		// the result must not share memory with the scalar, which may be a constant that other graphs use
+		if val, err = CloneValue(vals[0]); err != nil {
+			return nil, errors.Wrapf(err, cloneFail, vals[0])
+		}
+		v0 := ScalarAsTensor(val, op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a2546b415c5203f297947e8b54acd62ceee4200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:55:47 +0000
Subject: [PATCH 51/62] fix: unload a module whose functions cannot be loaded

A module stayed loaded for ever when one of its functions could not be
found, and the functions found before stayed registered.
---
 cuda/extension.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cuda/extension.go b/cuda/extension.go
index 0b36a7a..128ebdc 100644
--- a/cuda/extension.go
+++ b/cuda/extension.go
@@ -24,12 +24,17 @@ func (e *Engine) LoadCUDAFunc(moduleName, data string, funcs []string) (err erro
 		return errors.Wrapf(err, "Failed to load module %q data for Device %v context %x", moduleName, e.d, e.c)
 	}
 
+	loaded := make(map[string]cu.Function)
 	for _, name := range funcs {
 		var fn cu.Function
 		if fn, err = mod.Function(name); err != nil {
+			mod.Unload() // nothing would unload it later
 			return errors.Wrapf(err, "Unable to get function %q in Device %v context %x", name, e.d, e.c)
 		}
 		fqn := fmt.Sprintf("%v.%v", moduleName, name)
+		loaded[fqn] = fn
+	}
+	for fqn, fn := range loaded {
 		fns[fqn] = fn
 	}
 	if e.m == nil {
-- 
2.43.0


From 5b1d7fc19cd7007c464b0d38b10b75ec89948705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:57 +0000
Subject: [PATCH 52/62] fix: execute the calls in the queue of the batching
 BLAS

Calls were only executed if another one was found in the queue after the
first. A single call, or the last one of several, was never executed.
---
 blase/work.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blase/work.go b/blase/work.go
index 62a5319..764df68 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -143,15 +143,15 @@ func (ctx *context) DoWork() {
 				break enqueue
 
 			}
+		}
 
-			for i, c := range ctx.queue {
-				ctx.fns[i] = *(*C.struct_fnargs)(unsafe.Pointer(c.args))
-			}
-			C.process(&ctx.fns[0], C.int(len(ctx.queue)))
-
-			// clear queue
-			ctx.queue = ctx.queue[:0]
+		for i, c := range ctx.queue {
+			ctx.fns[i] = *(*C.struct_fnargs)(unsafe.Pointer(c.args))
 		}
+		C.process(&ctx.fns[0], C.int(len(ctx.queue)))
+
+		// clear queue
+		ctx.queue = ctx.queue[:0]
 	}
 }
 
-- 
2.43.0


From 7770c25c2d5acbc52b787448a84ca48da5fa5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:57 +0000
Subject: [PATCH 53/62] fix: pass the number of columns to dgemv in the
 batching BLAS

---
 blase/blas.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blase/blas.go b/blase/blas.go
index 5aaeeb5..d809b1d 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -75,7 +75,7 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 		order: C.cblas_order(rowMajor),
 		tA:    C.cblas_transpose(tA),
 		i0:    C.int(m),
-		i1:    C.int(m),
+		i1:    C.int(n),
 		d0:    C.double(alpha),
 		a0:    uintptr(unsafe.Pointer(&a[0])),
 		i2:    C.int(lda),
-- 
2.43.0


From 8d3cb4653ab1be84d38a8a3d48287c9e28dc0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:17 +0000
Subject: [PATCH 54/62] fix: process the queue of the batching BLAS from
 several goroutines

A machine processes the queue from the goroutine that executes the program
and from the one that waits for it. Both used the same buffers.
---
 blase/work.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blase/work.go b/blase/work.go
index 764df68..d0a7da1 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -27,6 +27,7 @@ uintptr_t process(struct fnargs* fa, int count) {
 */
 import "C"
 import (
+	"sync"
 	"unsafe"
 
 	"gonum.org/v1/gonum/blas"
@@ -95,6 +96,7 @@ type context struct {
 	workAvailable chan struct{}
 	work          chan call
 
+	mu    sync.Mutex // held while the queue is processed: there may be several goroutines that want it done
 	fns   []C.struct_fnargs
 	queue []call
 }
@@ -124,6 +126,8 @@ func (ctx *context) enqueue(c call) {
 // DoWork retrieves as many work items as possible, puts them into a queue, and then processes the queue.
 // The function may return without doing any work.
 func (ctx *context) DoWork() {
+	ctx.mu.Lock()
+	defer ctx.mu.Unlock()
 	for {
 		select {
 		case w := <-ctx.work:
-- 
2.43.0


From c4948073ef4a24adabae78cb731a45dd5b8ca25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:17 +0000
Subject: [PATCH 55/62] fix: let machines recognise the batching BLAS

Machines look for a Close method. Without it they took the batching BLAS for
one that executes calls at once, and used results that were not computed.
---
 blase/work.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blase/work.go b/blase/work.go
index d0a7da1..20dbc59 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -159,6 +159,12 @@ func (ctx *context) DoWork() {
 	}
 }
 
+// Close does the work that is left. Machines only treat a BLAS implementation that has it as a batching one.
+func (ctx *context) Close() error {
+	ctx.DoWork()
+	return nil
+}
+
 // WorkAvailable is the channel which users should subscribe to to know if there is work incoming.
 func (ctx *context) WorkAvailable() <-chan struct{} { return ctx.workAvailable }
 
-- 
2.43.0


From 7377285fc907444be1f345383ff26c4292cbc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:17 +0000
Subject: [PATCH 56/62] fix: do the work when the queue of the batching BLAS is
 full

The caller waited for room in the queue. Outside of a machine nobody makes it.
---
 blase/work.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blase/work.go b/blase/work.go
index 20dbc59..8506616 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -112,7 +112,14 @@ func newContext() *context {
 }
 
 func (ctx *context) enqueue(c call) {
-	ctx.work <- c
+	for queued := false; !queued; {
+		select {
+		case ctx.work <- c:
+			queued = true
+		default:
+			ctx.DoWork() // there is no room, and perhaps nobody else who would make some
+		}
+	}
 	select {
 	case ctx.workAvailable <- struct{}{}:
 	default:
-- 
2.43.0


From 9ac73f85c80d4f875fc1aee11450c37b09a441e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:02:09 +0000
Subject: [PATCH 57/62] fix: pass the transposition of matrices to cblas

Gonum's constants have been characters since they were changed, which cblas
refuses.
---
 blase/blas.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/blase/blas.go b/blase/blas.go
index d809b1d..9e08dae 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -47,12 +47,24 @@ import (
 
 const rowMajor = 101 // rowMajor and rowMajor ONLY
 
+// transpose converts Gonum's constants, which are characters, to those of cblas
+func transpose(t blas.Transpose) C.cblas_transpose {
+	switch t {
+	case blas.Trans:
+		return C.CblasTrans
+	case blas.ConjTrans:
+		return C.CblasConjTrans
+	default:
+		return C.CblasNoTrans
+	}
+}
+
 func (ctx *context) Dgemm(tA blas.Transpose, tB blas.Transpose, m int, n int, k int, alpha float64, a []float64, lda int, b []float64, ldb int, beta float64, c []float64, ldc int) {
 	fn := &fnargs{
 		fn:    C.cblasFn(fn_cblas_dgemm),
 		order: C.cblas_order(rowMajor),
-		tA:    C.cblas_transpose(tA),
-		tB:    C.cblas_transpose(tB),
+		tA:    transpose(tA),
+		tB:    transpose(tB),
 		i0:    C.int(m),
 		i1:    C.int(n),
 		i2:    C.int(k),
@@ -73,7 +85,7 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 	fn := &fnargs{
 		fn:    C.cblasFn(fn_cblas_dgemv),
 		order: C.cblas_order(rowMajor),
-		tA:    C.cblas_transpose(tA),
+		tA:    transpose(tA),
 		i0:    C.int(m),
 		i1:    C.int(n),
 		d0:    C.double(alpha),
-- 
2.43.0


From 61face5c0109766050bd0907241325801f7c7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:10:48 +0000
Subject: [PATCH 58/62] fix: finish queued products before dot and outer
 products

The batching BLAS queues matrix products and executes everything else at once. A dot or outer product of the result of a queued product read it too early.
---
 vm_tape_nocuda.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vm_tape_nocuda.go b/vm_tape_nocuda.go
index 34db00d..e0950f7 100644
--- a/vm_tape_nocuda.go
+++ b/vm_tape_nocuda.go
@@ -32,9 +32,11 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	}
 	m.leaveLogScope()
 
-	// Linear algebra may only have been queued by a batched BLAS. Anything else
+	// Matrix products may only have been queued by a batched BLAS. Anything else
 	// reads or overwrites memory right now, so the queue has to be worked off first.
-	if _, ok := instr.op.(linAlgBinOp); !ok {
+	// That includes the rest of linear algebra, which a batched BLAS need not queue.
+	op, ok := instr.op.(linAlgBinOp)
+	if !ok || op.āBinaryOperator == vecDotOperator || op.āBinaryOperator == outerProdOperator {
 		if err = m.ExternMetadata.DoWork(); err != nil {
 			return errors.Wrap(err, "DoWork failed")
 		}
-- 
2.43.0


From d5af2ffa58b9d14f1d1f57c31317856f4f982d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:23 +0000
Subject: [PATCH 59/62] fix: keep 1+x when something else than its logarithm
 uses it

Building log(1+x) removed the node 1+x from the graph and recycled it, also when another expression, for example a derivative, used it.
---
 stabilization.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stabilization.go b/stabilization.go
index c81513b..d062562 100644
--- a/stabilization.go
+++ b/stabilization.go
@@ -70,10 +70,11 @@ func logStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
-	g := a.g
-	g.removeAllEdgesFrom(a) // remove all references
-	g.RemoveNode(a)
-	defer returnNode(a) // send it back to the pool, since it is literally useless now
+	if g := a.g; g.To(a.ID()).Len() == 0 {
+		g.removeAllEdgesFrom(a) // remove all references
+		g.RemoveNode(a)
+		defer returnNode(a) // send it back to the pool, since it is literally useless now
+	}
 
 	if bot == subOpType {
 		if retVal, err = Neg(x); err == nil {
-- 
2.43.0


From 4fd226dabcc9361c6c814eca643e626ca1aab38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:50 +0000
Subject: [PATCH 60/62] fix: return an error when a cost cannot be
 differentiated

Grad wrapped an error that was nil, so for a cost that is neither a
float32 nor a float64 it returned neither gradients nor an error.
---
 gorgonia.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gorgonia.go b/gorgonia.go
index 73e340e..cd4f25f 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -224,8 +224,7 @@ func Grad(cost *Node, WRTs ...*Node) (retVal Nodes, err error) {
 	var dt tensor.Dtype
 	var ok bool
 	if dt, ok = cost.t.(tensor.Dtype); !ok {
-		err = errors.Wrap(err, "Expected a scalar dtype for cost")
-		return
+		return nil, errors.Errorf("Expected a scalar dtype for cost. Got %v instead", cost.t)
 	}
 
 	var gradOut *Node
@@ -235,7 +234,7 @@ func Grad(cost *Node, WRTs ...*Node) (retVal Nodes, err error) {
 	case Float32:
 		gradOut = onef32
 	default:
-		return nil, errors.Wrapf(err, "%s not yet implemented for %v of %T", dt.String(), "Grad()'s gradOut", gradOut)
+		return nil, errors.Errorf("%s not yet implemented for %v of %T", dt.String(), "Grad()'s gradOut", gradOut)
 	}
 
 	gradOut = cost.g.AddNode(gradOut)
-- 
2.43.0


From 454d4a40b1213e71b53a70e6104b488e2c266b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:23 +0000
Subject: [PATCH 61/62] fix: refuse axes and coordinates that do not exist

Softmax, sparsemax and element access accepted any axis or coordinate and
failed when executed. Sizes, sums along negative axes and selections by
index panicked.
---
 op_by_indices.go |  4 ++++
 op_reduction.go  |  2 +-
 op_softmax.go    |  6 +++++-
 op_sparsemax.go  |  3 +++
 operations.go    | 12 ++++++++++++
 5 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/op_by_indices.go b/op_by_indices.go
index 79a838f..9fbd247 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -52,6 +52,10 @@ func (op *byIndicesOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 		return nil, errors.Errorf("Expected indices to be a vector-like. Got %v instead", i)
 	}
 
+	if op.axis < 0 || op.axis >= s.Dims() {
+		return nil, errors.Errorf("Axis %d does not exist in shape %v", op.axis, s)
+	}
+
 	s[op.axis] = i.TotalSize()
 
 	return s, nil
diff --git a/op_reduction.go b/op_reduction.go
index ec83664..b3d30d2 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -49,7 +49,7 @@ func reductionInferShape(along []int, in tensor.Shape) (tensor.Shape, error) {
 	}
 	shape := in.Clone()
 	for _, d := range along {
-		if d >= shape.Dims() {
+		if d < 0 || d >= shape.Dims() {
 			return nil, fmt.Errorf("shape error, along %d is not a valid axis for shape %v", d, in)
 		}
 		shape[d] = 0
diff --git a/op_softmax.go b/op_softmax.go
index 7a1005d..636b518 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -56,7 +56,11 @@ func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 func (op *softmaxOp) String() string { return fmt.Sprintf("Softmax{%d, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
-	return inputs[0].(tensor.Shape), nil
+	s := inputs[0].(tensor.Shape)
+	if op.axis < -1 || op.axis >= s.Dims() && op.axis != 0 {
+		return nil, errors.Errorf("Axis %d does not exist in shape %v", op.axis, s)
+	}
+	return s, nil
 }
 
 func (op *softmaxOp) Type() hm.Type {
diff --git a/op_sparsemax.go b/op_sparsemax.go
index aecc477..abe1132 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -55,6 +55,9 @@ func (op *sparsemaxOp) String() string {
 
 func (op *sparsemaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 	s := inputs[0].(tensor.Shape).Clone()
+	if op.axis < -1 || op.axis >= s.Dims() && op.axis != 0 {
+		return nil, errors.Errorf("Axis %d does not exist in shape %v", op.axis, s)
+	}
 	return s, nil
 }
 
diff --git a/operations.go b/operations.go
index a437d36..e38a161 100644
--- a/operations.go
+++ b/operations.go
@@ -199,6 +199,15 @@ func At(a *Node, coords ...int) (retVal *Node, err error) {
 	}
 
 	dims := a.Dims()
+	if len(coords) != dims {
+		return nil, errors.Errorf("Expected %d coordinates for a node of shape %v. Got %v instead", dims, a.Shape(), coords)
+	}
+	for i, c := range coords {
+		if c < 0 || a.shape != nil && c >= a.shape[i] {
+			return nil, errors.Errorf("Coordinates %v are out of range for a node of shape %v", coords, a.Shape())
+		}
+	}
+
 	op := atOp{
 		coordinates: coords,
 		d:           dims,
@@ -405,6 +414,9 @@ func SizeOf(axis int, x *Node) (retVal *Node, err error) {
 
 	// if the shape is known
 	if x.shape != nil {
+		if axis < 0 || axis >= len(x.shape) {
+			return nil, errors.Errorf("Axis %d does not exist in a node of shape %v", axis, x.shape)
+		}
 		op.val = x.shape[axis]
 	}
 
-- 
2.43.0


From de1b2f513da83fc8948edcc0eee51ab929ce05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:53 +0000
Subject: [PATCH 62/62] fix: refuse products whose operands do not fit

Dot products of vectors of different lengths, batched products with
different inner dimensions and products of a matrix and a vector as long
as its columns were accepted and failed when executed.
---
 op_math.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/op_math.go b/op_math.go
index 1a0a822..c2b8be4 100644
--- a/op_math.go
+++ b/op_math.go
@@ -608,18 +608,15 @@ func (op linAlgBinOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err e
 			x = transpose2D(x)
 			defer tensor.ReturnInts(x)
 		}
-		if x[0] != y[0] && x[1] != y[0] {
+		if x[1] != y[0] {
 			return nil, errors.Errorf("Incompatible shapes: %v and %v", x, y)
 		}
-
-		switch {
-		case x[0] == y[0]:
-			retVal = tensor.Shape{x[1]}
-		case x[1] == y[0]:
-			retVal = tensor.Shape{x[0]}
-		}
+		retVal = tensor.Shape{x[0]}
 
 	case vecDotOperator:
+		if x.TotalSize() != y.TotalSize() {
+			return nil, errors.Errorf("Incompatible shapes: %v and %v", x, y)
+		}
 		retVal = scalarShape
 	case outerProdOperator:
 		// outerprods only handles vec x vec for now
@@ -644,6 +641,9 @@ func (op linAlgBinOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err e
 			innerY = transpose2D(innerY)
 			defer tensor.ReturnInts(innerY)
 		}
+		if innerX[1] != innerY[0] {
+			return nil, errors.Errorf("Inner dimensions do not match up")
+		}
 		retVal = append(outerX, innerX[0], innerY[1])
 	}
 	return
-- 
2.43.0

