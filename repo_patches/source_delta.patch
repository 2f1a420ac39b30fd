From 91023e06ad8ca142e974aa3f28b739c61a3c766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 001/136] fix: pass the model configuration when building
 sub-graphs

---
 onnx_tool/__init__.py | 2 +-
 onnx_tool/graph.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..c0fb112 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -176,7 +176,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, model.cfg)
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..a4e1f00 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -592,9 +592,9 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), self.cfg)
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), self.cfg)
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), self.cfg)
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
-- 
2.43.0


From b0e8bf44ffae42c2814ceb7029c1da1dacff375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 002/136] fix: model_opfusion passes the parameter names the
 fusion functions take

---
 onnx_tool/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index c0fb112..139d624 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -185,9 +185,9 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
         model.save_model(save_file)
-- 
2.43.0


From 43b92f4f7dea6af14b048033259c63eb1f7eb43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 003/136] fix: Squeeze inference no longer overwrites the
 node's axes attribute

---
 onnx_tool/node.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..bfb79d4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1305,9 +1305,10 @@ class SqueezeNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
+        axes = self.axes
         if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+            axes = intensors[1].get_numpy()
+        axes = _axes_neg2pos(len(inshape), axes)
         for i in range(len(inshape)):
             if i in axes:
                 continue
@@ -1319,9 +1320,10 @@ class SqueezeNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
         idx = 0
+        axes = self.axes
         if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
+            axes = intensors[1].get_numpy()
+        for axis in axes:
             outtensor = numpy.squeeze(outtensor, axis=axis - idx)
             idx += 1
         outtensors[0].update_tensor(outtensor)
-- 
2.43.0


From 0ea867de07f6f1411c7e428c0158214f7c990f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 004/136] fix: TopK without axis uses the standard default (-1)
 and keeps its attributes

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bfb79d4..d13b497 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2007,14 +2007,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From b8a380c51dddeec11d4aef150d6ae2d6273b8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 005/136] fix: Reduce* without axes reduces every axis in shape
 inference instead of leaving the output unset

---
 onnx_tool/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d13b497..085f1c5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1921,9 +1921,8 @@ class ReduceMeanNode(Node):
         else:
             axes = self.axes
         if axes is None:
-            return [[1]]
-        else:
-            axes = _axes_neg2pos(len(xshape), axes)
+            axes = range(len(xshape))
+        axes = _axes_neg2pos(len(xshape), axes)
 
         for i in range(len(xshape)):
             if i in axes:
-- 
2.43.0


From 16abf1b2e457db03989d7371d505b55a6209e728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 006/136] fix: Reduce* value inference takes the axes input as
 a tuple and keeps the input element type

---
 onnx_tool/node.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 085f1c5..68bf043 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1935,11 +1935,12 @@ class ReduceMeanNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
-        outtensors[0].update_tensor(reduced)
+        x = intensors[0].get_numpy()
+        reduced = numpy.mean(x, axis=axes, keepdims=self.keepdims == 1)
+        outtensors[0].update_tensor(reduced.astype(x.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
@@ -1950,11 +1951,12 @@ class ReduceMeanNode(Node):
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
-        outtensors[0].update_tensor(reduced)
+        x = intensors[0].get_numpy()
+        reduced = numpy.prod(x, axis=axes, keepdims=self.keepdims == 1)
+        outtensors[0].update_tensor(reduced.astype(x.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         datashape = intensors[0].get_shape()
@@ -1969,8 +1971,9 @@ class ReduceSumNode(ReduceMeanNode):
             axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
-        outtensors[0].update_tensor(reduced)
+        x = intensors[0].get_numpy()
+        reduced = numpy.sum(x, axis=axes, keepdims=self.keepdims == 1)
+        outtensors[0].update_tensor(reduced.astype(x.dtype))
 
 
 @NODE_REGISTRY.register()
@@ -1978,7 +1981,7 @@ class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
@@ -1995,7 +1998,7 @@ class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
+            axes = tuple(intensors[1].get_numpy().tolist())
         else:
             axes = self.axes
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
@@ -2237,9 +2240,12 @@ class ReduceL2Node(Node):
         self.axes = tuple(self.axes) if self.axes is not None else None
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
-        outtensors[0].update_tensor(reduced)
+        x = intensors[0].get_numpy()
+        axes = self.axes
+        if len(intensors) == 2:
+            axes = tuple(intensors[1].get_numpy().tolist())
+        reduced = numpy.sqrt(numpy.sum(x * x, axis=axes, keepdims=self.keepdims == 1))
+        outtensors[0].update_tensor(reduced.astype(x.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
-- 
2.43.0


From ee38e3a268b553547d4cb1ba38f07a30c6e8a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 007/136] fix: CumSum value inference accepts its axis tensor
 and keeps the input element type

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 68bf043..3bc8622 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2263,7 +2263,8 @@ class CumSumNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
+            x = intensors[0].get_numpy()
+            y = numpy.cumsum(x, int(intensors[1].get_numpy()), dtype=x.dtype)
             outtensors[0].update_tensor(y)
             return
         raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
-- 
2.43.0


From b903fa4e10b764f505f9925005ac415f91a96e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 008/136] fix: Min value inference computes the minimum

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3bc8622..8a21746 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -308,7 +308,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 95e2013f4261d52f04f8eebd6498ad5920dbb3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 009/136] fix: Pow value inference keeps the element type of
 the base

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8a21746..af47637 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -485,8 +485,9 @@ class PowNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(sel, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.power(intensors[0].get_numpy(), intensors[1].get_numpy())
-        outtensors[0].update_tensor(result)
+        x = intensors[0].get_numpy()
+        result = numpy.power(x, intensors[1].get_numpy())
+        outtensors[0].update_tensor(result.astype(x.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From 3b359ae04ab30c97caf1259ef0f5ce443c30fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 010/136] fix: Round keeps its input element type instead of
 inferring bool

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index af47637..77b0219 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -784,7 +784,11 @@ class LessOrEqualNode(LessNode):
 
 
 @NODE_REGISTRY.register()
-class RoundNode(LessNode):
+class RoundNode(PWNode):
+    def __init__(self, n):
+        super().__init__(n)
+        self.op_mac = CMP_MACS
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
-- 
2.43.0


From fed18550e42fd5636614220508ca2957d088061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 011/136] fix: OneHot value inference uses the on/off values
 and their element type

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 77b0219..7bf173f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1119,8 +1119,8 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
-        outtensors[0].update_tensor(y)
+        y = one_hot(indices, depth, self.axis, numpy.bool_)
+        outtensors[0].update_tensor(numpy.where(y, values[1], values[0]))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 1ce60df80a94e1b2bb43746fc4f2c3dbc911bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 012/136] fix: GlobalAveragePool value inference keeps the rank
 and element type of its input

---
 onnx_tool/node.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7bf173f..8e4f62a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1518,16 +1518,7 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
+        y = numpy.mean(x, axis=tuple(range(2, len(x.shape))), keepdims=True)
         outtensors[0].update_tensor(y)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From e8a907e15c8b2fa3a91ba1d4122b922aed0d22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 013/136] fix: GatherElements value inference keeps the element
 type of the data

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8e4f62a..fa8d504 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2789,7 +2789,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros_like(indice, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From 0d9cebb9b0c150b547a7f6b5655f32160cbbdfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 014/136] fix: QLinearConv output type is that of y_zero_point
 with and without bias

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fa8d504..f3b0b02 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2610,7 +2610,7 @@ class QLinearConvNode(ConvNode):
                                         self.dilations[0])
                 shape = [xshape[0], wshape[0], oh]
         outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_dtype(intensors[7].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
-- 
2.43.0


From 51d9e0c57f26f31a8e115b0bf62dcac18e3d2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 015/136] fix: MaxPool infers shape and type of its Indices
 output

---
 onnx_tool/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f3b0b02..df18479 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1449,6 +1449,9 @@ class PoolBase(Node):
                 ]
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:  # MaxPool indices
+            outtensors[1].update_shape(list(outshape))
+            outtensors[1].update_dtype(numpy.int64)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From a74713a534b8e3423ee7e2662314aecd490ea0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 016/136] fix: Dropout value inference sets its mask output

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index df18479..5eb3228 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1508,6 +1508,11 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().value_infer(intensors, outtensors)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(tuple(intensors[0].get_shape()), dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From 2cf7ea9aca7d6d21b9cbdb73f1f6e6e5fd0e6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 017/136] fix: BatchNormalization infers its running
 mean/variance outputs

---
 onnx_tool/node.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5eb3228..b8ecdff 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1632,7 +1632,17 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def _infer_statistics(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        for i in range(1, len(outtensors)):
+            outtensors[i].update_shape(intensors[3].get_shape())
+            outtensors[i].update_dtype(intensors[3].dtype)
+
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        self._infer_statistics(intensors, outtensors)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        self._infer_statistics(intensors, outtensors)
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
         b = intensors[2].get_numpy()
-- 
2.43.0


From 8549f0b43146d88a60d97ff1963c3ae5ef8e1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 018/136] fix: LayerNormalization infers its Mean and InvStdDev
 outputs

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b8ecdff..553500e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2540,6 +2540,12 @@ class LayerNormalizationNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
+        # Mean and InvStdDev
+        for i in range(1, len(outtensors)):
+            shape = intensors[0].get_shape()
+            axis = _axes_neg2pos(len(shape), [self.axis])[0]
+            outtensors[i].update_shape(shape[:axis] + [1] * (len(shape) - axis))
+            outtensors[i].update_dtype(onnxdtype2npdtype(self.stash_type))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
-- 
2.43.0


From 022baba8544561453f31fb6cf7b840fd55f139a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 019/136] fix: MatMulInteger value inference subtracts the zero
 points and yields int32

---
 onnx_tool/node.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 553500e..b832da9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2574,6 +2574,16 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        a = intensors[0].get_numpy().astype(numpy.int32)
+        b = intensors[1].get_numpy().astype(numpy.int32)
+        if len(intensors) > 2:
+            a_zero = intensors[2].get_numpy().astype(numpy.int32)
+            a = a - (a_zero.reshape(-1, 1) if len(a_zero.shape) == 1 else a_zero)
+        if len(intensors) > 3:
+            b = b - intensors[3].get_numpy().astype(numpy.int32)
+        outtensors[0].update_tensor(numpy.matmul(a, b))
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
-- 
2.43.0


From 89a0c6646de9e8563e83cdde808060eafe73eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 020/136] fix: QuantizeLinear without zero point infers uint8
 instead of failing

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b832da9..d6f2c3e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2565,7 +2565,7 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        outtensors[0].update_dtype(intensors[2].dtype if len(intensors) > 2 else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From ca05761350ddf1fb65f1a47ad59d0b4a2a1b63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 021/136] fix: QLinearMatMul value inference dequantizes its
 operands instead of multiplying the scales

---
 onnx_tool/node.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d6f2c3e..8385d9d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2610,6 +2610,18 @@ class QLinearMatMulNode(GemmNode):
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[-1].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        a, a_scale, a_zero, b, b_scale, b_zero, y_scale, y_zero = [t.get_numpy() for t in intensors]
+        if len(a_scale.shape) == 1:  # per row
+            a_scale, a_zero = a_scale.reshape(-1, 1), a_zero.reshape(-1, 1)
+        if len(y_scale.shape) == 1:
+            y_scale, y_zero = y_scale.reshape(-1, 1), y_zero.reshape(-1, 1)
+        a = (a.astype(numpy.float32) - a_zero) * a_scale
+        b = (b.astype(numpy.float32) - b_zero) * b_scale
+        y = numpy.round(numpy.matmul(a, b) / y_scale) + y_zero
+        info = numpy.iinfo(y_zero.dtype)
+        outtensors[0].update_tensor(numpy.clip(y, info.min, info.max).astype(y_zero.dtype))
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         weight_shape = intensors[3].get_shape()
-- 
2.43.0


From 8298187d0a4da8696c4f7115e861adb5ae1e511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 022/136] fix: Conv auto_pad covers every spatial axis and
 VALID respects dilations

---
 onnx_tool/node.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8385d9d..951b38f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2161,15 +2161,14 @@ class ConvNode(Node):
         shape = []
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
+                shape = (xshape[0], wshape[0])
+                for i in range(2, len(xshape)):
+                    shape += (_auto_pad_same_shape_calc(xshape[i], self.strides[i - 2]),)
             elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
-                shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
-                    shape += (ow,)
+                shape = (xshape[0], wshape[0])
+                for i in range(2, len(xshape)):
+                    ksize = (wshape[i] - 1) * self.dilations[i - 2] + 1
+                    shape += (_auto_pad_valid_shape_calc(xshape[i], ksize, self.strides[i - 2]),)
             else:
                 assert 0
 
-- 
2.43.0


From 78365632c46fd8b55a91c3a1a4cb6d5861f6895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 023/136] fix: QLinearConv and ConvInteger infer VALID padding
 and 3-D kernels like Conv

---
 onnx_tool/node.py | 42 ++----------------------------------------
 1 file changed, 2 insertions(+), 40 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 951b38f..a336547 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2635,26 +2635,7 @@ class QLinearMatMulNode(GemmNode):
 @NODE_REGISTRY.register()
 class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[3].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
-        outtensors[0].update_shape(shape)
+        super().shape_infer([intensors[0], intensors[3]], outtensors)
         outtensors[0].update_dtype(intensors[7].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2679,26 +2660,7 @@ class QLinearConvNode(ConvNode):
 @NODE_REGISTRY.register()
 class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
-        outtensors[0].update_shape(shape)
+        super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From c8007108ae96821fc9c8a1f2a6d6fff4fae7c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 024/136] fix: 3-D pooling uses its own end padding and
 dilation per axis

---
 onnx_tool/node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a336547..a332ea1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1434,16 +1434,16 @@ class PoolBase(Node):
                 ]
             if len(self.kernel_shape) == 3:
                 outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
+                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[3], self.kernel_shape[0],
                                         self.dilations[0],
                                         self.strides[0],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
+                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[4], self.kernel_shape[1],
                                         self.dilations[1],
                                         self.strides[1],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
+                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[5], self.kernel_shape[2],
+                                        self.dilations[2],
                                         self.strides[2],
                                         self.ceil_mode),
                 ]
-- 
2.43.0


From 4275a0d1f70fa3234d0ecebeea6886a53df17d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 025/136] fix: pooling auto_pad and defaults cover every
 spatial axis

---
 onnx_tool/node.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a332ea1..4e672a8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1398,9 +1398,9 @@ class PoolBase(Node):
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1408,13 +1408,12 @@ class PoolBase(Node):
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             outshape = inshape[:2]
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
+                for i in range(2, len(inshape)):
+                    outshape += [_auto_pad_same_shape_calc(inshape[i], self.strides[i - 2]), ]
             elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
+                for i in range(2, len(inshape)):
+                    ksize = (self.kernel_shape[i - 2] - 1) * self.dilations[i - 2] + 1
+                    outshape += [_auto_pad_valid_shape_calc(inshape[i], ksize, self.strides[i - 2]), ]
         else:
             if len(self.kernel_shape) == 1:
                 outshape = inshape[:2] + [
-- 
2.43.0


From 80314bab85277d7dd8f22b832dd456127a564008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 026/136] fix: ConvTranspose supports auto_pad SAME and 3-D
 default attributes

---
 onnx_tool/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4e672a8..3b7d5ec 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2683,10 +2683,11 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('auto_pad', None)
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
@@ -2725,6 +2726,9 @@ class ConvTransposeNode(Node):
             shape = [xshape[0], outc, ow]
             if volume(self.output_shape) != 0:
                 shape[2] = self.output_shape[0]
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER'] and volume(self.output_shape) == 0:
+            for i in range(2, len(xshape)):
+                shape[i] = xshape[i] * self.strides[i - 2]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From e875d7dc00f951301e146cc463c5c16bce06e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 027/136] fix: parameter inputs of point-wise operators do not
 decide the output shape

---
 onnx_tool/node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3b7d5ec..e8572a6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -252,10 +252,7 @@ class PWNode(Node):
         self.ratio = max(1, len(self.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        inshapes = []
-        for tensor in intensors:
-            inshapes.append(tensor.get_shape())
-        outtensors[0].update_shape(_max_shape(inshapes))
+        outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -723,6 +720,10 @@ class SumNode(PWNode):
         self.op_mac = ADD_MACS
         self.ratio = len(nodeproto.input) - 1
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(_broadcast_shape([t.get_shape() for t in intensors]))
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         y = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-- 
2.43.0


From aa1ad48108dd531bd8280473d5d40c9b87468485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 028/136] fix: MatMul batch dimensions broadcast per dimension

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e8572a6..6eec529 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -894,7 +894,7 @@ class GemmNode(Node):
             yshape = batchshape + [a_m, b_n]
         else:
             # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
+            batchshape = _broadcast_shape([a_shape[:-2], b_shape[:-2]])
             yshape = batchshape + [a_shape[-2], b_shape[-1]]
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2605,7 +2605,7 @@ class QLinearMatMulNode(GemmNode):
             else:
                 yshape = xshape[:-1] + [wshape[-1], ]
         else:
-            yshape = xshape[:-1] + [wshape[-1], ]
+            yshape = _broadcast_shape([xshape[:-2], wshape[:-2]]) + [xshape[-2], wshape[-1]]
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[-1].dtype)
 
-- 
2.43.0


From b2953a572513ab028816cbdce1fd21d30f1b9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 029/136] fix: Flatten counts a negative axis from the end

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6eec529..ef19585 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1677,7 +1677,7 @@ class FlattenNode(Node):
             y = x.reshape((x.shape[0], -1))
         else:
             vol = 1
-            for i in range(self.axis):
+            for i in range(self.axis if self.axis >= 0 else len(x.shape) + self.axis):
                 vol *= x.shape[i]
             y = x.reshape((vol, -1))
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 6831437fe3ab6b7579c6e80cd4047e8d2f75f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 030/136] fix: Squeeze without axes drops every unit dimension,
 axes may be negative or unsorted

---
 onnx_tool/node.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ef19585..63d32c4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1306,7 +1306,7 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
@@ -1314,6 +1314,8 @@ class SqueezeNode(Node):
         axes = self.axes
         if len(intensors) == 2:
             axes = intensors[1].get_numpy()
+        if axes is None:
+            axes = [i for i, v in enumerate(inshape) if v == 1]
         axes = _axes_neg2pos(len(inshape), axes)
         for i in range(len(inshape)):
             if i in axes:
@@ -1325,14 +1327,12 @@ class SqueezeNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
-        idx = 0
         axes = self.axes
         if len(intensors) == 2:
             axes = intensors[1].get_numpy()
-        for axis in axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
-        outtensors[0].update_tensor(outtensor)
+        if axes is not None:
+            axes = tuple(int(axis) for axis in axes)
+        outtensors[0].update_tensor(numpy.squeeze(outtensor, axis=axes))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 777e8ae2557adc442863c763f9ef585d0c1b9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 031/136] fix: Unsqueeze axes refer to the output rank when
 folding

---
 onnx_tool/node.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 63d32c4..2f20127 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1297,9 +1297,7 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
-            outtensor = numpy.expand_dims(outtensor, axis=axis)
-        outtensors[0].update_tensor(outtensor)
+        outtensors[0].update_tensor(numpy.expand_dims(outtensor, axis=tuple(int(axis) for axis in axes)))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 2f419896dd7ee3850dcf6e33d9316a384344c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 032/136] fix: GatherND honours batch_dims

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2f20127..fa4e92e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2435,10 +2435,14 @@ class ScatterNDNode(Node):
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2472,7 +2476,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 69131fb931f7652bec42419f169ae659a11bdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 033/136] fix: Shape honours start and end

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fa4e92e..db3285f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1335,8 +1335,13 @@ class SqueezeNode(Node):
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('start', 0)
+        self.add_default_value('end', None)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        ret = numpy.array(intensors[0].get_shape()[self.start:self.end], dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From a802778296d5591979bb473e54262dd4d4e1f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 034/136] fix: Reshape honours allowzero

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index db3285f..3778352 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2756,6 +2756,10 @@ class ConvTransposeNode(Node):
 
 @NODE_REGISTRY.register()
 class ReshapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('allowzero', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
         if not is_valid_ndarray(intensors[1].get_numpy()):
@@ -2765,7 +2769,7 @@ class ReshapeNode(Node):
         shape = intensors[1].get_numpy()
         newshape = []
         for i in range(len(shape)):
-            if shape[i] == 0:
+            if shape[i] == 0 and not self.allowzero:
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
@@ -2786,7 +2790,7 @@ class ReshapeNode(Node):
         xtensor = intensors[0].get_numpy()
         stensor = intensors[1].get_numpy()
         for i, v in enumerate(stensor):
-            if v == 0:
+            if v == 0 and not self.allowzero:
                 shape.append(xtensor.shape[i])
             else:
                 shape.append(v)
-- 
2.43.0


From d274e161e9aabef8c646c1d7efae4ea2629964f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 035/136] fix: Reduce operators honour noop_with_empty_axes and
 empty axes

---
 onnx_tool/node.py | 48 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3778352..eee5296 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1923,20 +1923,29 @@ class SliceNode(Node):
         outtensors[0].update_tensor(x)
 
 
+def _reduce_axes(node, intensors: List[Tensor]):
+    """axes to reduce as a tuple, None for all of them"""
+    if len(intensors) == 2:
+        axes = intensors[1].get_numpy().tolist()
+    else:
+        axes = node.axes
+    if axes is None or len(axes) == 0:
+        return () if node.noop_with_empty_axes else None
+    return tuple(axes)
+
+
 @NODE_REGISTRY.register()
 class ReduceMeanNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         if axes is None:
             axes = range(len(xshape))
         axes = _axes_neg2pos(len(xshape), axes)
@@ -1951,10 +1960,7 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         x = intensors[0].get_numpy()
         reduced = numpy.mean(x, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced.astype(x.dtype))
@@ -1967,10 +1973,7 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         x = intensors[0].get_numpy()
         reduced = numpy.prod(x, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced.astype(x.dtype))
@@ -1984,10 +1987,7 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         x = intensors[0].get_numpy()
         reduced = numpy.sum(x, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced.astype(x.dtype))
@@ -1997,10 +1997,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2014,10 +2011,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2253,13 +2247,11 @@ class ReduceL2Node(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
+        self.add_default_value('noop_with_empty_axes', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        axes = self.axes
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.sqrt(numpy.sum(x * x, axis=axes, keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced.astype(x.dtype))
 
-- 
2.43.0


From 6042f8df222ebf5b1ac23165c6d94a7ffe58bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 036/136] fix: Slice folding honours negative axes, omitted
 axes and steps

---
 onnx_tool/node.py | 73 +++++++++++------------------------------------
 1 file changed, 16 insertions(+), 57 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index eee5296..0b8f3b7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1725,6 +1725,7 @@ class ZipMapNode(Node):
 class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
+        self.add_default_value('axes', None)
         self.add_default_value('steps', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1750,9 +1751,9 @@ class SliceNode(Node):
                     steps = list(intensors[4].get_numpy())
 
         r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, set to [0..len(starts)-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
@@ -1863,63 +1864,21 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
+        if len(intensors) == 1:
+            starts, ends, axes, steps = self.starts, self.ends, self.axes, self.steps
+        else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
+            axes = intensors[3].get_numpy() if len(intensors) > 3 else None
+            steps = intensors[4].get_numpy() if len(intensors) > 4 else None
+        if axes is None:
+            axes = range(len(starts))
+        if steps is None:
+            steps = [1] * len(starts)
+        slices = [slice(None)] * len(data.shape)
+        for axis, start, end, step in zip(axes, starts, ends, steps):
+            slices[axis] = slice(start, end, step)
+        x = data[tuple(slices)].copy()
         outtensors[0].update_tensor(x)
 
 
-- 
2.43.0


From 99c63d2a5a7ac8a344b5b1246edecf972f76d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 037/136] fix: Pad honours the axes input and folds attribute
 pads

---
 onnx_tool/node.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0b8f3b7..2688f4d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1579,32 +1579,31 @@ class PadNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('pads', None)
         self.add_default_value('value', 0)
-        self.add_default_value('mode', 'constant')
+        self.add_default_value('mode', b'constant')
+
+    def _pads(self, intensors: List[Tensor]):
+        """begin and end paddings of every axis"""
+        rank = len(intensors[0].get_shape())
+        pads = self.pads if self.pads is not None else intensors[1].get_numpy()
+        axes = range(rank)
+        if len(intensors) > 3:
+            axes = _axes_neg2pos(rank, intensors[3].get_numpy())
+        begins, ends = [0] * rank, [0] * rank
+        for i, axis in enumerate(axes):
+            begins[axis] = int(pads[i])
+            ends[axis] = int(pads[i + len(axes)])
+        return begins, ends
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        newshape = []
-        if self.pads is None:
-            if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
-        else:
-            for i, v in enumerate(inshape):
-                newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
-        newshape = [int(val) for val in newshape]
+        begins, ends = self._pads(intensors)
+        newshape = [int(v + begins[i] + ends[i]) for i, v in enumerate(inshape)]
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.pads is not None:
-            pads = self.pads
-        elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
-        nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
+        begins, ends = self._pads(intensors)
+        pad_width = list(zip(begins, ends))
         value = self.value
         if len(intensors) > 2:
             value = intensors[2].get_numpy()
-- 
2.43.0


From 3d1f6377b384b1375904fe7cc071916c443d66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 038/136] fix: Pad folds the non-constant modes

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2688f4d..6722d40 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1607,8 +1607,9 @@ class PadNode(Node):
         value = self.value
         if len(intensors) > 2:
             value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        mode = self.mode.decode("utf-8")
+        options = {'constant_values': value} if mode == 'constant' else {}
+        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=mode, **options)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 4be9214da514a8db81e2fdcd14b843b4921ec2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 039/136] fix: RoiAlign output extents default to 1

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6722d40..6a1238d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2275,6 +2275,8 @@ class FloorNode(FusedBase):
 class RoiAlignNode(Node):
     def __init__(self, node):
         super().__init__(node)
+        self.add_default_value('output_height', 1)
+        self.add_default_value('output_width', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From 57f3374e049ebb59df046dded83e2a5f493c8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 040/136] fix: the last hidden state of GRU is optional

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6a1238d..316305b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2784,8 +2784,9 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From f6d1aa57bbd3aeee2e7d4acd1596a89ecd96c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 041/136] fix: Split axis defaults to 0

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 316305b..8989683 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2895,7 +2895,7 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From a891d8976bab47af054a513e051d0e2c2f4561c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 042/136] fix: GridSample accepts constant grids

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8989683..bcbd011 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1066,8 +1066,9 @@ class GridSampleNode(Node):
         super().__init__(n)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        r = intensors[1].shape[-1]
-        out_shape = intensors[0].shape[:2] + intensors[1].shape[1:1 + r]
+        xshape = intensors[0].get_shape()
+        gridshape = intensors[1].get_shape()
+        out_shape = xshape[:2] + gridshape[1:1 + gridshape[-1]]
         outtensors[0].update_shape(out_shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From b7d83869a1292f219943bfe06be7e3c58ae0b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 043/136] fix: Upsample scales attribute and spatial Resize
 sizes

---
 onnx_tool/node.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bcbd011..9b033f1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1352,9 +1352,11 @@ class ResizeNode(Node):
         xshape = intensors[0].get_shape()
         roi = []
         sizes = []
-        if len(intensors) == 2:
+        if len(intensors) == 1:
+            scales = numpy.array(self.scales)
+        elif len(intensors) == 2:
             scales = intensors[1].get_numpy()
-        elif len(intensors) >= 3:
+        else:
             roi = intensors[1].get_numpy()
             scales = intensors[2].get_numpy()
             if len(intensors) >= 4:
@@ -1365,7 +1367,7 @@ class ResizeNode(Node):
             if len(sizes) == len(xshape):
                 newshape = sizes
             if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
+                newshape = xshape[:2] + [int(size) for size in sizes]
         else:
             if is_valid_ndarray(scales):
                 newshape = []
-- 
2.43.0


From 5ff99e4011faafd82e0f53d0a638bfddaacf83b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 044/136] fix: Min/Max with more than two inputs were counted
 as one pairwise operation

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9b033f1..73f06a6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -265,7 +265,7 @@ class NpMathBase(Node):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
-        self.ratio = max(1, len(self.input) - 1)
+        self.ratio = max(1, len(getattr(n, 'input', ())) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshapes = []
-- 
2.43.0


From fb4a6ec549501d42fdd36a228e36f1d57e00b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 045/136] fix: LayerNormalization counted its statistics per
 normalized element when axis is not the last

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 73f06a6..c47b8f7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2513,7 +2513,7 @@ class LayerNormalizationNode(Node):
         tshape = intensors[0].get_shape()
         axis = _axes_neg2pos(len(tshape), [self.axis])[0]
         vol = volume(tshape)
-        tshape[axis] = 1
+        tshape[axis:] = [1] * (len(tshape) - axis)
         vol2 = volume(tshape)
         return vol * (MUL_MACS * 3 + ADD_MACS * 4) + vol2 * (ADD_MACS + SQRT_MACS + DIV_MACS)
 
-- 
2.43.0


From d6ac6d54c72cc3b9dc14d9216a98c7744ebd69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 046/136] fix: MatMul with a vector ignored the contracted
 extent in its MACs

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c47b8f7..8127055 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -929,8 +929,7 @@ class GemmNode(Node):
                 else:
                     macs *= weight_shape[-2]
             else:
-                if len(weight_shape) > 1:
-                    macs *= weight_shape[-2]
+                macs *= weight_shape[-2] if len(weight_shape) > 1 else weight_shape[-1]
             if len(intensors) == 3:
                 macs += volume(yshape) * ADD_MACS
         else:
-- 
2.43.0


From 925f06246904f4473b357e2503c9a8ccc5e82bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 047/136] fix: MatMulInteger counted its zero point as a bias

---
 onnx_tool/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8127055..ac27045 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2545,6 +2545,9 @@ class MatMulIntegerNode(GemmNode):
             b = b - intensors[3].get_numpy().astype(numpy.int32)
         outtensors[0].update_tensor(numpy.matmul(a, b))
 
+    def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        return super()._profile_core(intensors[:2], outtensors)  # the other inputs are zero points, not a bias
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
-- 
2.43.0


From b19edafaef37ea7d75d4cc15fa03b6824c76bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 048/136] fix: QLinearMatMul ignored the batch extents of its
 second operand in its MACs

---
 onnx_tool/node.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ac27045..4e8ccec 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2588,12 +2588,7 @@ class QLinearMatMulNode(GemmNode):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
+        macs = volume(outtensors[0].get_shape()) * xshape[-1]
         return macs
 
 
-- 
2.43.0


From 6456c733a0eb0e1a9b2e1688ce7037b84d472895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 049/136] fix: integer convolutions ignored the third kernel
 extent in their MACs

---
 onnx_tool/node.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4e8ccec..56ffc56 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2603,15 +2603,10 @@ class QLinearConvNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[3].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
+            if len(kernel_shape) < 3:
                 raise NotImplementedError()
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
             if len(intensors) == 9:
                 macs += (outvol * ADD_MACS)
         return macs
@@ -2628,15 +2623,10 @@ class ConvIntegerNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[1].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
+            if len(kernel_shape) < 3:
                 raise NotImplementedError()
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
         return macs
 
 
-- 
2.43.0


From 30c97f3df08ff5a28477caabfe9d728547e447a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 050/136] fix: ConvTranspose MACs contracted over the output
 channels instead of the input channels

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 56ffc56..92e292f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2689,7 +2689,8 @@ class ConvTransposeNode(Node):
             if len(intensors) == 3 or len(intensors) == 2:
                 kernel_shape = intensors[1].get_shape()
                 outvol = volume(outtensors[0].get_shape())
-                reduce_shape = kernel_shape[1:]
+                # weights are [Cin, Cout/group, *kernel]: an output sums over the input channels of its group
+                reduce_shape = [kernel_shape[0] // self.group] + kernel_shape[2:]
                 reduce_vol = volume(reduce_shape)
                 macs += outvol * reduce_vol * MUL_MACS
                 if len(intensors) > 2:
-- 
2.43.0


From 9c1ca53dcd4c57d124c46f2f39b68791c0e61d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 051/136] fix: 3-D pooling MACs only counted the first kernel
 extent

---
 onnx_tool/node.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 92e292f..0ef088c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1461,9 +1461,7 @@ class PoolBase(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
-        macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
+        macs = outvol * CMP_MACS * volume(self.kernel_shape)
         return macs
 
 
-- 
2.43.0


From f5cba91dd5a2eb22470d4467c2b2461dbc5c32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 052/136] fix: profiling an LSTM or GRU without bias raised

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0ef088c..0fae7ac 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2077,7 +2077,7 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 and intensors[3].name != '' else []
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
@@ -2781,7 +2781,7 @@ class GRUNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 and intensors[3].name != '' else []
         batch = xshape[1]
         seq = xshape[0]
         h_len = wshape[1] // 3
-- 
2.43.0


From d79dd6cb3b8981e76ea6c5611455a109ff777c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 053/136] fix: LeakyRelu keeps the input while folding every
 element

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0fae7ac..f0e6e89 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -708,8 +708,7 @@ class LeakyReluNode(PWNode):
         x = intensors[0].get_numpy()
         outtensor = numpy.zeros_like(x)
         for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
+            outtensor[i] = x[i] if x[i] >= 0 else x[i] * self.alpha
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 0f13e04b891e02f67405884b539c2f7e004d181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 054/136] fix: HardSigmoid and HardSwish clip elementwise

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f0e6e89..d50ab77 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -585,7 +585,7 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -598,7 +598,7 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = intensors[0].get_numpy() * numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 4fd6738e3e97f61e6a0eb3ad5cabd5dc94023a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 055/136] fix: integer Div keeps integers and truncates towards
 zero

---
 onnx_tool/node.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d50ab77..a9f1656 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -335,13 +335,14 @@ class DivNode(NpMathBase):
         self.op_mac = DIV_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
-            else:
-                result = intensors[0].get_numpy() / intensors[1].get_numpy()
+        x = intensors[0].get_numpy()
+        y = intensors[1].get_numpy()
+        if numpy.issubdtype(x.dtype, numpy.integer):
+            # integer division truncates towards zero
+            result = x // y
+            result = result + ((result < 0) & (result * y != x))
         else:
-            result = intensors[0].get_numpy() / intensors[1].get_numpy()
+            result = x / y
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From a187f75426338ff2a2c3de9f6b11c55c3c06faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 056/136] fix: Mod honours fmod

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a9f1656..d00a00f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -351,9 +351,13 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        if self.fmod:
+            result = numpy.fmod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        else:
+            result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 91eeb46f34e91d880b08471974e61ef3384314d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 057/136] fix: Clip accepts missing bounds

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d00a00f..930af1b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -997,11 +997,11 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
+        if len(intensors) < 2 or intensors[1].name == '':
             minval = None
         else:
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
+        if len(intensors) < 3 or intensors[2].name == '':
             maxval = None
         else:
             maxval = intensors[2].get_numpy()
-- 
2.43.0


From 39cb47c3d5b2687649171abd71be1f55da5fbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 058/136] fix: Gemm applies alpha and beta, MatMul folds
 vectors

---
 onnx_tool/node.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 930af1b..13ab804 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -869,6 +869,8 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
@@ -905,9 +907,6 @@ class GemmNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
@@ -917,9 +916,9 @@ class GemmNode(Node):
             A = numpy.swapaxes(A, -1, -2)
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
-        C = numpy.matmul(A, B)
+        C = self.alpha * numpy.matmul(A, B)
         if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+            C = numpy.add(C, self.beta * intensors[2].get_numpy())
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 7d71dbacda5c2b69bc0574ddee5a9862a164947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 059/136] fix: integer Div looks at both operands

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 13ab804..314173e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -337,7 +337,7 @@ class DivNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         y = intensors[1].get_numpy()
-        if numpy.issubdtype(x.dtype, numpy.integer):
+        if numpy.issubdtype(numpy.result_type(x, y), numpy.integer):
             # integer division truncates towards zero
             result = x // y
             result = result + ((result < 0) & (result * y != x))
-- 
2.43.0


From 93d19383263a96e7e6800f0b3a2558f9fe4f45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 060/136] fix: Softmax axis defaults to the last one

---
 onnx_tool/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 314173e..d4fdf3a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -408,6 +408,7 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xexp = numpy.exp(intensors[0].get_numpy())
-- 
2.43.0


From c6f5ea5b79e35084fe5477c239bdcecf2bd83480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 061/136] fix: ConstantOfShape without value gives float zeros

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d4fdf3a..2eb9b2c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2818,7 +2818,8 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        dtype = numpy.float32 if self.value is None else self.value.dtype
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From bacccfc3b69bdf651a25a1d5343e4e6384c5284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 062/136] fix: ScatterND honours reduction

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2eb9b2c..b3c7803 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2384,6 +2384,10 @@ def gather_nd_impl(
 
 @NODE_REGISTRY.register()
 class ScatterNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('reduction', b'none')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2392,7 +2396,7 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, self.reduction.decode('utf-8')))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From a9afed9c3877526cd7209bcb3476d43e7729deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 063/136] fix: LayerNormalization epsilon default is usable

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b3c7803..14c0ec2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2501,7 +2501,7 @@ class LayerNormalizationNode(Node):
     def __init__(self, node_proto):
         super().__init__(node_proto)
         self.add_default_value('axis', -1)
-        self.add_default_value('epsilon ', 1e-05)
+        self.add_default_value('epsilon', 1e-05)
         self.add_default_value('stash_type', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From fb914b708fc8cdffe1ae569fb2c08bfb9d5cae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 064/136] fix: ConvInteger folds zero points, not a bias

---
 onnx_tool/node.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 14c0ec2..bdac0af 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2624,6 +2624,19 @@ class ConvIntegerNode(ConvNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        # inputs 2 and 3 are the zero points of x and w, there is no bias
+        shifted = []
+        for i in range(2):
+            value = intensors[i].get_numpy().astype(numpy.int32)
+            if len(intensors) > i + 2 and intensors[i + 2].name != '':
+                zero = intensors[i + 2].get_numpy().astype(numpy.int32)
+                value = value - (zero.reshape((-1, 1, 1, 1)) if i == 1 else zero)
+            tensor = Tensor(intensors[i].name)
+            tensor.update_tensor(value)
+            shifted.append(tensor)
+        super().value_infer(shifted, outtensors)
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From 81d1b8eb1df34f92845de0f783394c84c4b9b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 065/136] fix: every input whose contents decide a shape is a
 shape tensor

---
 onnx_tool/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a4e1f00..2cfcc31 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -21,7 +21,7 @@ def __shape_of_initializer__(initial):
 
 _SHAPE_TENSORS = {
     'Reshape': ('1of2',),
-    'Resize': ('2of3', '3of4', '1of2'),
+    'Resize': ('2of3', '2,3of4', '1of2'),
     'Upsample': ('2of3', '3of4', '1of2'),
     'Expand': ('1of2',),
     'Slice': ('1,2of3', '1,2,3of4', '1,2,3,4of5'),
@@ -30,13 +30,18 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
-    'NonMaxSuppression': ('2of5', '2of4'),
+    'Pad': ('1of2', '1of3', '1,3of4'),
+    'NonMaxSuppression': ('2of5', '2of4', '2of3'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceL2': ('1of2',),
+    'Compress': ('1of2',),
 }
 
 
-- 
2.43.0


From 391b91547f2b9515dbc2b179cc002fcfa6ac7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 066/136] fix: typed small-integer and boolean initializers
 keep their data

---
 onnx_tool/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..5009ad1 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -98,7 +98,7 @@ def tensorproto2ndarray(initial):
         if ndtype == numpy.float32:
             arr = numpy.fromiter(initial.float_data, dtype=ndtype)
 
-        elif ndtype == numpy.int32:
+        elif ndtype in (numpy.int32, numpy.int16, numpy.int8, numpy.uint16, numpy.uint8, numpy.bool_):
             arr = numpy.fromiter(initial.int32_data, dtype=ndtype)
 
         elif ndtype == numpy.float16:
-- 
2.43.0


From 4719a31eb885790e7133b028e195b469763c8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 067/136] fix: create_tensor describes the tensor with its own
 element type

---
 onnx_tool/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 5009ad1..59ee554 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -527,6 +527,6 @@ def create_tensor(name: str, type, shape, dtype):
     t.type = type
     t.numpy = None
     t.shape = shape
-    t.proto = t.make_value_proto()
     t.dtype = dtype
+    t.proto = t.make_value_proto()
     return t
-- 
2.43.0


From ce35f70918249c6a8b6d70b6110a9f14e96ad8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 068/136] fix: tensors made from an array have a list shape
 like any other

---
 onnx_tool/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 59ee554..c151878 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -508,7 +508,7 @@ def create_initial_Tensor(name: str, ndarray: numpy.ndarray):
     t = Tensor(name)
     t.type = STATIC_TENSOR
     t.numpy = ndarray
-    t.shape = t.numpy.shape
+    t.shape = list(t.numpy.shape)
     t.proto = t.make_tensor_proto()
     t.dtype = t.numpy.dtype.type
     return t
@@ -517,7 +517,7 @@ def create_dynamic_Tensor(name: str, ndarray: numpy.ndarray):
     t = Tensor(name)
     t.type = DYNAMIC_TENSOR
     t.numpy = ndarray
-    t.shape = t.numpy.shape
+    t.shape = list(t.numpy.shape)
     t.dtype = t.numpy.dtype.type
     t.proto = t.make_value_proto()
     return t
-- 
2.43.0


From 68c2c2db5375c3c307021adf90378273767a8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 069/136] fix: excluding operators from one profile does not
 exclude them from the next

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 139d624..6c4b895 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops).union(exclude_ops)
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From 0ed4ddc220d5f86f619efa50796548acc9129c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 070/136] fix: shape regression does not rewrite the caller's
 input description

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 2cfcc31..c347bb4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -131,7 +131,7 @@ class ShapeEngine():
         return shape
 
     def add_tensor_desc(self, tensor, desc):
-        self.tensor_desc[tensor] = desc
+        self.tensor_desc[tensor] = list(desc)
 
     def update_tensor_desc(self, tensor, axis, vkey):
         desc = self.tensor_desc[tensor]
-- 
2.43.0


From 09d60d80fe32b658c258f9e37f16921a1ba4a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 071/136] fix: a model configuration does not alter the shared
 architecture table

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From 9af74aaef9363700fc0da8ae63a47037bc8eeb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 072/136] fix: profile and report cover operators in graph
 order

---
 onnx_tool/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c347bb4..1c11593 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1443,7 +1443,7 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        ops_to_cover = [k for k, v in self.nodemap.items() if v.op_type not in exclude_ops] if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
             itensors = []
@@ -1547,7 +1547,7 @@ class Graph():
         params += 1e-18
         memory += 1e-18
         forward_macs += 1e-18
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        ops_to_cover = [k for k, v in self.nodemap.items() if v.op_type not in exclude_ops] if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
             row = [key, self.nodemap[key].op_type]
-- 
2.43.0


From ccf6b0728161ee0a549b3a59fc9e782ed4e1af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 073/136] fix: constant folding keeps operators that produce a
 model output

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1c11593..9854525 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -210,7 +210,7 @@ class Graph():
         if constant_folding:
             rmlist = []
             for key in self.nodemap:
-                if self.nodemap[key].constant:
+                if self.nodemap[key].constant and not any(o in self.output for o in self.nodemap[key].output):
                     rmlist.append(key)
             self.log(f'GraphProto Nodes Count:{len(self.rawgraph.node)}')
             self.log(f'Contant folding {rmlist[:3]}... {len(rmlist)} Nodes')
-- 
2.43.0


From 3d6c28e0c1d9bc87ccd0a8e3456c69e372c2fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 074/136] fix: updating a graph registers its weights and
 inputs once

---
 onnx_tool/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9854525..5268e4a 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -231,8 +231,11 @@ class Graph():
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
-                self.initials.append(initial.name)
-            self.dynamics.extend(self.input)
+                if initial.name not in self.initials:
+                    self.initials.append(initial.name)
+            for tname in self.input:
+                if tname not in self.dynamics:
+                    self.dynamics.append(tname)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
                     if tname not in self.initials and tname not in self.dynamics:
-- 
2.43.0


From 51189e1194242214f725540e7b4e6bf27a0ada25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 075/136] fix: a model output consumed inside a node group is
 still an output of the group

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 5268e4a..1e32464 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -996,7 +996,7 @@ class Graph():
                     continue
                 if output in self.consumedby:
                     consumers = self.consumedby[output]
-                    inner = True
+                    inner = output not in self.output
                     for consumer in consumers:
                         if consumer not in nodenames:
                             inner = False
-- 
2.43.0


From 2e76ae74c709d0e4e90347156e20a27fa91362fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 076/136] fix: removing a node recursively keeps producers of
 model outputs

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1e32464..44fd37c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -664,7 +664,7 @@ class Graph():
                 if len(self.consumedby[i]) == 1 and i in self.producedby:
                     pnode = self.producedby[i][0]
                     assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
+                    dangle_node = i not in self.output
                     for o in self.nodemap[pnode].output:
                         if o == i:
                             continue
-- 
2.43.0


From edaf8e3dc8445110006df3713f23a810f9433c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 077/136] fix: subtree and dangling-node removal follow the
 current consumers

---
 onnx_tool/graph.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 44fd37c..f3c00d2 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -687,9 +687,10 @@ class Graph():
             if nodename in self.nodemap:  # may be already removed?
                 node = self.nodemap[nodename]
 
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
+                for o in node.output:
+                    for n in self.consumedby.get(o, []):
+                        nodeset.add(n)
+                        nodeset.union(self.remove_subtree(n, nodeset))
                 return nodeset
             return nodeset
 
@@ -710,13 +711,8 @@ class Graph():
                 node = self.nodemap[nodename]
                 node_used = False
                 for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
+                    if o in self.output or len(self.consumedby.get(o, [])) > 0:
                         node_used = True
-                        break
 
                 if node_used:
                     continue
-- 
2.43.0


From b9705aa915613525ab1bf869d0ced969af6b5928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 078/136] fix: a fused node keeps the model outputs and is
 linked to its neighbours

---
 onnx_tool/graph.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index f3c00d2..3407ccc 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -757,8 +757,10 @@ class Graph():
                     newnode_prot.attribute.append(attr)
                 count += 1
         from .node import create_node
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode_prot)
         newnode.input = _inputs
         newnode.output = _outputs
@@ -767,12 +769,12 @@ class Graph():
                 self.consumedby[i].append(nodename)
             else:
                 self.consumedby[i] = [nodename]
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+            for producer in self.producedby.get(i, []):
+                newnode.prevnodes.append(self.nodemap[producer])
         for o in _outputs:
             self.producedby[o] = [nodename]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+            for consumer in self.consumedby.get(o, []):
+                newnode.nextnodes.append(self.nodemap[consumer])
         self.nodemap[nodename] = newnode
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
@@ -808,20 +810,24 @@ class Graph():
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode)
         newnode.input = _inputs
         newnode.output = _outputs
         for i in _inputs:
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+            else:
+                self.consumedby[i] = [mainnode.name]
+            for producer in self.producedby.get(i, []):
+                newnode.prevnodes.append(self.nodemap[producer])
         for o in _outputs:
             self.producedby[o] = [mainnode.name]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+            for consumer in self.consumedby.get(o, []):
+                newnode.nextnodes.append(self.nodemap[consumer])
         self.nodemap[mainnode.name] = newnode
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
-- 
2.43.0


From 94d0c69c12dc0ff8c30ea26a2d3d4539381b1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 079/136] fix: skipping a node never leaves its consumers
 without a producer

---
 onnx_tool/graph.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3407ccc..cf28a63 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -727,21 +727,30 @@ class Graph():
             if input in self.dynamics:
                 count += 1
                 indtensor = input
-        if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+        if count != 1 or len(node.output) != 1:
+            return  # there is no single tensor to pass through
+        outdtensor = node.output[0]
+        if outdtensor in self.output:
+            if indtensor in self.output or indtensor not in self.producedby:
+                return  # both names are part of the model interface
+            # the model output keeps its name
+            src, dst = indtensor, outdtensor
+            for pro in self.producedby[indtensor]:
+                pro_node = self.nodemap[pro]
+                pro_node.output[pro_node.output.index(indtensor)] = outdtensor
+            self.producedby[outdtensor] = self.producedby.pop(indtensor)
+        else:
+            src, dst = outdtensor, indtensor
+            self.producedby.pop(outdtensor)
+        for input in node.input:
+            if input in self.consumedby:
+                self.consumedby[input].remove(nodename)
+        for con in self.consumedby.pop(src, []):
+            con_node = self.nodemap[con]
+            con_node.input[con_node.input.index(src)] = dst
+            if dst not in self.consumedby:
+                self.consumedby[dst] = []
+            self.consumedby[dst].append(con)
         self.nodemap.pop(nodename)
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
-- 
2.43.0


From fb662cad27dff23377746610927e509fee001711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 080/136] fix: a model output keeps its place while another
 node produces it

---
 onnx_tool/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index cf28a63..9e9b1d0 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -653,9 +653,8 @@ class Graph():
                 self.producedby[o].remove(nodename)
                 if len(self.producedby[o]) == 0:
                     self.producedby.pop(o)
-
-                if o in self.output:
-                    self.output.remove(o)
+                    if o in self.output:
+                        self.output.remove(o)
 
         newnodes = []
         # update consumer
-- 
2.43.0


From 86da290383d3fd66cead820a63e12bbe97f55e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 081/136] fix: without remove_dangling, declared outputs stay
 outputs even when consumed

---
 onnx_tool/graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9e9b1d0..bac761c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -256,7 +256,7 @@ class Graph():
 
         self.input = []
         if not self.cfg.remove_dangling:
-            self.output = []
+            self.output = [name for name in self.output if name in self.tensormap]
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
@@ -485,10 +485,9 @@ class Graph():
         for output in g.output:
             if output.name not in self.tensormap.keys():
                 self.tensormap[output.name] = Tensor(output)
-        if self.cfg.remove_dangling:
-            self.output = []
-            for o in g.output:
-                self.output.append(o.name)
+        self.output = []
+        for o in g.output:
+            self.output.append(o.name)
         # init dynamic tensor info
         for valinfo in g.value_info:
             if valinfo.name not in self.tensormap.keys():
-- 
2.43.0


From c4ca89bbee3b032f62a3cd395d7160103d9b676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 082/136] fix: inlining an If branch connects every output of
 the branch

---
 onnx_tool/graph.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index bac761c..28f3300 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -366,12 +366,12 @@ class Graph():
                     # add branch node
                     names = []
                     for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
+                        names.append(self.__add_node_from_proto__(node_proto))
 
                     # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
+                    newoutputs = {}
+                    for preoutput, newoutput in zip(node.attr[selected_branch].output, node.output):
+                        newoutputs[preoutput.name] = newoutput
                     for newname in names:
                         newnode = self.nodemap[newname]
                         for tensor in newnode.input:
@@ -384,9 +384,17 @@ class Graph():
                                 for consumer in self.consumedby[tensor]:
                                     self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
                         for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
+                            if v in newoutputs:
+                                newnode.output[i] = newoutputs[v]
+                                self.producedby[newoutputs[v]].append(newname)
+                                self.producedby.pop(v)
+                        for i, v in enumerate(newnode.input):
+                            if v in newoutputs:
+                                newnode.input[i] = newoutputs[v]
+                                self.consumedby[v].remove(newname)
+                                if newoutputs[v] not in self.consumedby:
+                                    self.consumedby[newoutputs[v]] = []
+                                self.consumedby[newoutputs[v]].append(newname)
             if len(remove_list)==0:
                 break
             for n in remove_list:
@@ -440,6 +448,7 @@ class Graph():
             self.producedby[tensor].append(newnode.name)
             newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
+        return newnode.name
 
     def __init_graph_from_onnxproto__(self, g, noderename):
         if g is None:
-- 
2.43.0


From 863658761992ad7e6e629ec2a35e46ee68bf23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 083/136] fix: inlining an If branch keeps the initializers of
 the branch

---
 onnx_tool/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 28f3300..ed783c0 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -365,6 +365,9 @@ class Graph():
                             remove_list.append(sname)
                     # add branch node
                     names = []
+                    for initial in node.attr[selected_branch].initializer:
+                        self.tensormap[initial.name] = Tensor(initial)
+                        self.initials.append(initial.name)
                     for node_proto in node.attr[selected_branch].node:
                         names.append(self.__add_node_from_proto__(node_proto))
 
-- 
2.43.0


From 6952a535b4fae1e3a1b1b18054b51646705bcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 084/136] fix: fixing TopK's k works for any source of k and
 removes nothing else

---
 onnx_tool/graph.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ed783c0..0010ab3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -406,31 +406,33 @@ class Graph():
     def __set_fixed_topk(self, fixed_k):
         prekeys = list(self.nodemap.keys())
         fixed_k_tensor_name = 'constant_fixed_topk_k'
-        remove_list = []
         topk_node = 0
         for n in prekeys:
+            if n not in self.nodemap:
+                continue
             node = self.nodemap[n]
             if node.op_type == 'TopK':
-                # remove condition node chain
-                node_list = []
                 ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
-                    node_list = [self.producedby[ktensor][0]]
+                node.input[1] = fixed_k_tensor_name
+                self.consumedby[ktensor].remove(n)
+                if fixed_k_tensor_name not in self.consumedby:
+                    self.consumedby[fixed_k_tensor_name] = []
+                self.consumedby[fixed_k_tensor_name].append(n)
+                topk_node += 1
+                # remove the node chain that only computed k
+                node_list = list(self.producedby.get(ktensor, []))
                 while len(node_list):
-                    remove = True
                     sname = node_list.pop(0)
+                    if sname not in self.nodemap:
+                        continue
                     snode = self.nodemap[sname]
+                    if any(o in self.output or len(self.consumedby.get(o, [])) > 0 for o in snode.output):
+                        continue
                     for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
-                            node_list.append(self.producedby[ipn][0])
-                    if remove:
-                        remove_list.append(sname)
-                topk_node += 1
-                node.input[1] = fixed_k_tensor_name
+                        node_list.extend(self.producedby.get(ipn, []))
+                    self.remove_node(sname)
         if topk_node > 0:
             self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
-        for n in remove_list:
-            self.remove_node(n)
 
     def __add_node_from_proto__(self, node_proto):
         newnode = create_node(node_proto)
-- 
2.43.0


From 174672958b89f2022389a269b4da4a3d8139f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 085/136] fix: the compute graph no longer shares its structure
 with the graph it comes from

---
 onnx_tool/graph.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0010ab3..b000d51 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1411,8 +1411,31 @@ class Graph():
         self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
+    def __copy_structure__(self):
+        # own containers and nodes, shared tensors
+        g = copy.copy(self)
+        g.nodemap = {}
+        for name in self.nodemap.keys():
+            node = copy.copy(self.nodemap[name])
+            node.input = list(node.input)
+            node.output = list(node.output)
+            node.attr = dict(node.attr)
+            g.nodemap[name] = node
+        for name in g.nodemap.keys():
+            node = g.nodemap[name]
+            node.prevnodes = [g.nodemap[n.name] for n in node.prevnodes if n.name in g.nodemap]
+            node.nextnodes = [g.nodemap[n.name] for n in node.nextnodes if n.name in g.nodemap]
+        g.tensormap = dict(self.tensormap)
+        g.producedby = {name: list(self.producedby[name]) for name in self.producedby}
+        g.consumedby = {name: list(self.consumedby[name]) for name in self.consumedby}
+        g.input = list(self.input)
+        g.output = list(self.output)
+        g.initials = list(self.initials)
+        g.dynamics = list(self.dynamics)
+        return g
+
     def get_compute_graph(self):
-        cg = copy.copy(self)
+        cg = self.__copy_structure__()
         nodes = []
         rmnodes = []
         for key in cg.nodemap.keys():
@@ -1456,7 +1479,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
+                if output not in cg.dynamics:
                     cg.dynamics.append(output)
 
         return cg
-- 
2.43.0


From 9e280fa76b6a2b558175223b09435986468c80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 086/136] fix: quantized tensors list the operators consuming
 them

---
 onnx_tool/quantization.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..46c3c6c 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -175,12 +175,13 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         node.input.insert(idx, tname_s)
         node.input.insert(idx, tname_q)
         if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
+            g.consumedby[tname_q] = []
+            g.consumedby[tname_s] = []
+            if type == 'asym':
+                g.consumedby[tname_z] = []
+        g.consumedby[tname_q].append(nname)
+        g.consumedby[tname_s].append(nname)
+        if type == 'asym':
             g.consumedby[tname_z].append(nname)
     g.consumedby.pop(tname)
     g.initials.remove(tname)
-- 
2.43.0


From 79772f3b40700d58e3943f1dc25a47a072a424a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 087/136] fix: folding BatchNormalization into Conv handles
 biases and leaves the rest of the graph connected

---
 onnx_tool/fusion.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..5eba7b3 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -466,6 +466,10 @@ def ConvBNFusion(graph: Graph):
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
+        if len(graph.consumedby[conv_node.output[0]]) > 1 or conv_node.output[0] in graph.output:
+            continue  # the convolution result is used by others too
+        if any(len(graph.consumedby[tname]) > 1 for tname in conv_node.input[1:]):
+            continue  # shared parameters can not be changed
         weight = graph.tensormap[conv_node.input[1]]
         gamma = graph.tensormap[bn_node.input[1]]
         beta = graph.tensormap[bn_node.input[2]]
@@ -474,7 +478,7 @@ def ConvBNFusion(graph: Graph):
         wshape = weight.shape
         if len(conv_node.input) == 3:
             hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
+            newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
         else:
             hasbias = False
             newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
@@ -489,10 +493,15 @@ def ConvBNFusion(graph: Graph):
         weight.update_proto(weight.numpy)
         newbiasname = conv_node.name + "_bias_"
         graph.add_initial(newbiasname, newbias)
+        graph_outputs = list(graph.output)
         graph.remove_node(nodes[1])
+        graph.output = graph_outputs
         if hasbias:
+            graph.consumedby.pop(conv_node.input[2])
             conv_node.input[2] = newbiasname
         else:
             conv_node.input.append(newbiasname)
+        graph.consumedby[newbiasname] = [conv_node.name]
+        graph.producedby.pop(conv_node.output[0])
         graph.producedby[bn_node.output[0]] = [conv_node.name]
         conv_node.output[0] = bn_node.output[0]
-- 
2.43.0


From abb2c638e28977f50999a152c83123a1b64699a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 088/136] fix: an attribute condition on a missing axis does
 not match instead of failing

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 5eba7b3..eac0da3 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -232,7 +232,7 @@ class AttrExpr():
         if hasattr(x, self.attrname):
             if self.idx == -1:
                 return self.logical(x.__getattribute__(self.attrname))
-            else:
+            elif self.idx < len(x.__getattribute__(self.attrname)):
                 return self.logical(x.__getattribute__(self.attrname)[self.idx])
         return False
 
-- 
2.43.0


From d66d1daa449c993850f4c5eb580d0542e9bcfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 089/136] fix: folding BatchNormalization writes new weights
 instead of read-only or shared ones

---
 onnx_tool/fusion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index eac0da3..0e865b7 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -4,6 +4,7 @@ import onnx.helper
 import onnx_tool
 from .graph import Graph
 from .node import Node
+from .tensor import create_initial_Tensor
 
 ConvBN = [
     {
@@ -476,6 +477,7 @@ def ConvBNFusion(graph: Graph):
         mean = graph.tensormap[bn_node.input[3]]
         var = graph.tensormap[bn_node.input[4]]
         wshape = weight.shape
+        newweight = weight.numpy.copy()
         if len(conv_node.input) == 3:
             hasbias = True
             newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
@@ -488,9 +490,9 @@ def ConvBNFusion(graph: Graph):
             for j in range(wshape[1]):
                 for k in range(wshape[2]):
                     for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
+                        newweight[i, j, k, l] = sm * newweight[i, j, k, l]
             newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
+        graph.tensormap[conv_node.input[1]] = create_initial_Tensor(conv_node.input[1], newweight)
         newbiasname = conv_node.name + "_bias_"
         graph.add_initial(newbiasname, newbias)
         graph_outputs = list(graph.output)
-- 
2.43.0


From 9be8401ebc4eed68e9d55a106574d6d6600aa613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 090/136] fix: a pattern matches only where every connection
 exists, and matches do not overlap

---
 onnx_tool/fusion.py | 170 ++++++++++++++------------------------------
 1 file changed, 52 insertions(+), 118 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 0e865b7..f54d2e7 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -309,135 +309,68 @@ class FusionPattern():
         self.first_key = nodedescs[0]['name']
         self.inplace_fusion = inplace_fusion
         self.append_fusion = inplace_fusion
+        self.found_node_names = []
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
 
+    def __producers__(self, node, inidx, outidx, graph):
+        names = []
+        for i, tname in enumerate(node.input):
+            if inidx != -1 and i != inidx:
+                continue
+            for nodename in graph.producedby.get(tname, []):
+                if outidx == -1 or graph.nodemap[nodename].output.index(tname) == outidx:
+                    names.append(nodename)
+        return names
+
+    def __consumers__(self, node, outidx, inidx, graph):
+        names = []
+        for i, tname in enumerate(node.output):
+            if outidx != -1 and i != outidx:
+                continue
+            consumed_nodes = graph.consumedby.get(tname, [])
+            if self.append_fusion and (len(consumed_nodes) > 1 or tname in graph.output):
+                # inpalce_fusion the consumer op will be appended to this op as postop
+                # it requires that the output of this op is consumed by next op only
+                continue
+            for nodename in consumed_nodes:
+                inputs = graph.nodemap[nodename].input
+                if inidx == -1 or (inidx < len(inputs) and inputs[inidx] == tname):
+                    names.append(nodename)
+        return names
+
     def search_node(self, nodepair, graph, searched):
         curdescname = nodepair[0]
         curnodename = nodepair[1]
+        for descname, nodename in searched:
+            if descname == curdescname:
+                return nodename == curnodename, []
+            if nodename == curnodename:
+                return False, None
 
         desc = self.nodedesc[curdescname]
         node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
-        else:
-            searched.remove(curnodename)
+        if curnodename in self.found_node_names or not desc.is_node(node):
             return False, None
 
+        # every connection of the pattern has to exist
+        count = len(searched)
+        searched.append(nodepair)
+        outpath = [nodepair]
+        candidates = [(inset[1], self.__producers__(node, inset[0], inset[2], graph)) for inset in desc.inport]
+        candidates += [(outset[1], self.__consumers__(node, outset[0], outset[2], graph)) for outset in desc.outport]
+        for nextdescname, nodenames in candidates:
+            valid = False
+            for nodename in nodenames:
+                valid, path = self.search_node((nextdescname, nodename), graph, searched)
+                if valid:
+                    outpath.extend(path)
+                    break
+            if not valid:
+                del searched[count:]
+                return False, None
+        return True, outpath
+
     def search_pattern(self, graph: Graph):
         ls_nodes = []
         first_desc = self.nodedesc[self.first_key]
@@ -457,6 +390,7 @@ class FusionPattern():
                         idx = desckeys.index(val[0])
                         nodes[idx] = val[1]
                     ls_nodes.append(nodes)
+                    self.found_node_names.extend(nodes)
         return ls_nodes
 
 
-- 
2.43.0


From 71b80741155103aaf7966f55c10df7c8fa97ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 091/136] fix: the int8 attention pattern connects
 QuantizeLinear to Softmax at both ends

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index f54d2e7..90e853c 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -117,7 +117,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
-- 
2.43.0


From 84e78d09ed8f4236ca3aacda34aaa8e57c406b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 092/136] fix: names holding both kinds of separator keep a
 slash in exported file names

---
 onnx_tool/__init__.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 6c4b895..611de98 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -41,11 +41,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
         savefolder = './'
     if tensornames is None:
         for key in g.initials:
-            name = key
-            if '/' in key:
-                name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
+            name = key.replace('/', '_').replace('\\', '_')
             narr = g.tensormap[key].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
 
@@ -54,11 +50,7 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             if name not in g.initials:
                 warnings.warn(f'tensor {name} not found ')
                 continue
-            fname = name
-            if '/' in name:
-                fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
+            fname = name.replace('/', '_').replace('\\', '_')
             narr = g.tensormap[name].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
 
-- 
2.43.0


From 95430eab42d42edb481eef95ec66aa7b72ebad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 093/136] fix: saved operators lose their operator-set domain

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bdac0af..caa9753 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -173,6 +173,7 @@ class Node():
     def __init__(self, n: onnx.NodeProto | TmpNodeProto):
         self.name = n.name
         self.op_type = n.op_type
+        self.domain = getattr(n, 'domain', '')
         self.nextnodes = []
         self.prevnodes = []
         self.output = []
@@ -204,7 +205,8 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=self.domain,
+                                     **self.attr)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From ba347dbe97f92a916efee8e2b71a452609640a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 094/136] fix: saved sub-graphs list initializers none of their
 operators uses as inputs

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b000d51..4f58b83 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -911,9 +911,14 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        used_names = set()
+        for name in nodenames:
+            used_names.update(self.nodemap[name].input)
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
+            if name not in used_names or name in inputnames:
+                continue  # 未被选中的节点使用，或已经是 graph input
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
                 if proto is not None:
-- 
2.43.0


From 008fa94a44c649c19886954d340a71d8b9c80543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 095/136] fix: attributes of other types (lists of strings)
 read as None

---
 onnx_tool/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index c151878..8ef7a87 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -140,6 +140,7 @@ def get_attribute_data(att):
         return val
     elif att.type == att.TENSOR:
         return tensorproto2ndarray(att.t)
+    return onnx.helper.get_attribute_value(att)
 
 
 def volume(shape: []):
-- 
2.43.0


From 8960705d58be5a7b50f70a711e6d291fda1b0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 096/136] fix: uint32 and uint64 tensors have no element type

---
 onnx_tool/tensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 8ef7a87..c270c6d 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -53,6 +53,10 @@ def onnxdtype2npdtype(data_type):
         return numpy.uint8
     if data_type == onnx.TensorProto.UINT16:
         return numpy.uint16
+    if data_type == onnx.TensorProto.UINT32:
+        return numpy.uint32
+    if data_type == onnx.TensorProto.UINT64:
+        return numpy.uint64
     if data_type == onnx.TensorProto.BOOL:
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
@@ -82,6 +86,10 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT8
     if npdtype == numpy.uint16:
         return onnx.TensorProto.UINT16
+    if npdtype == numpy.uint32:
+        return onnx.TensorProto.UINT32
+    if npdtype == numpy.uint64:
+        return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
     if npdtype == numpy.bytes_:
@@ -110,6 +118,9 @@ def tensorproto2ndarray(initial):
         elif ndtype == numpy.int64:
             arr = numpy.fromiter(initial.int64_data, dtype=ndtype)
 
+        elif ndtype in (numpy.uint32, numpy.uint64):
+            arr = numpy.fromiter(initial.uint64_data, dtype=ndtype)
+
         elif ndtype == numpy.float64:
             arr = numpy.fromiter(initial.double_data, dtype=ndtype)
         elif ndtype == numpy.bytes_:
-- 
2.43.0


From 6e146fe4fabbc484bd758523d43c84214bb0599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 097/136] fix: saved models lose the function definitions their
 operators refer to

---
 onnx_tool/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4f58b83..5147ac1 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -885,6 +885,7 @@ class Graph():
                 model.opset_import.pop()
                 for opset in rawmodel.opset_import:
                     model.opset_import.append(opset)
+                model.functions.extend(rawmodel.functions)
             onnx.save_model(model, f)
 
     def make_graph_onnx(self, nodenames, gname, inputnames, outputnames, with_initializer=True, with_shape_info=True):
-- 
2.43.0


From d8436677ca323dab1272feacef3e126ac523642c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 098/136] fix: constants that are graph outputs are missing
 from saved models

---
 onnx_tool/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 5147ac1..0e2e076 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -896,6 +896,13 @@ class Graph():
         initializer = None
         if with_initializer:
             initializer = self.get_initials_from_nodenames(nodenames)
+            written = [proto.name for proto in initializer]
+            for name in outputnames:
+                if name in self.initials and name not in written:
+                    proto = self.tensormap[name].make_tensor_proto()
+                    if proto is not None:
+                        initializer.append(proto)
+                        written.append(name)
 
         inputs = []
         outputs = []
@@ -915,6 +922,7 @@ class Graph():
         used_names = set()
         for name in nodenames:
             used_names.update(self.nodemap[name].input)
+        used_names.update(outputnames)
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
-- 
2.43.0


From 698873c6937d0a1d7bebc4d457410750c0771636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 099/136] fix: memory plan reuses graph outputs that inner
 operators also consume

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0e2e076..dc53396 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1254,7 +1254,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From da4ecad2bb8ecc873eda5347e09597c07d8b0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 100/136] fix: memory plan of a graph without inner activations
 divides by zero

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index dc53396..1903c10 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1422,7 +1422,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def __copy_structure__(self):
-- 
2.43.0


From 06d31cbc00433926db4639f2d349b91ab9709890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 101/136] fix: serialize_graph announces tensor, tuple and
 empty list attributes without writing them

---
 onnx_tool/serialization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..f27b7d3 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -1,4 +1,5 @@
 import numpy
+import onnx
 
 import onnx_tool
 from .graph import ShapeEngine, ValueExpr
@@ -41,6 +42,7 @@ DTYPE_UINT8 = 6
 DTYPE_INT16 = 7
 DTYPE_UINT16 = 8
 DTYPE_INT64 = 9
+DTYPE_TENSOR = 10
 
 
 def __write_data_type(buf, data):
@@ -153,10 +155,16 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
                     buf = __write_float2buf(buf, val)
                 return buf
 
-            if not isinstance(attrval, list):
+            if isinstance(attrval, onnx.TensorProto):
+                attrval = onnx.numpy_helper.to_array(attrval)
+            if isinstance(attrval, numpy.ndarray):
+                buf = __write_len2buf(buf, [attrval])
+                buf = __write_int2buf(buf, DTYPE_TENSOR)
+                return __write_ndarray(buf, attrval)
+            if not isinstance(attrval, (list, tuple)):
                 attrval = [attrval]
             buf = __write_len2buf(buf, attrval)
-            buf = __write_data_type(buf, attrval[0])
+            buf = __write_data_type(buf, attrval[0] if len(attrval) > 0 else 0)
             for val in attrval:
                 buf = write_value(buf, val)
             return buf
-- 
2.43.0


From 95ec01e1acb95c0931122930b913e69aa76eb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 102/136] fix: serialization silently drops values of
 unsupported types

---
 onnx_tool/serialization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index f27b7d3..6e08d80 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -48,10 +48,12 @@ DTYPE_TENSOR = 10
 def __write_data_type(buf, data):
     if isinstance(data, str) or isinstance(data, bytes):
         buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
+    elif isinstance(data, int):
         buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
+    elif isinstance(data, float):
         buf = __write_int2buf(buf, DTYPE_FLOAT)
+    else:
+        raise ValueError(f'Unsupported data type {type(data)}')
     return buf
 
 
-- 
2.43.0


From ec32deca2062fc62982c2e285721d8a4da8178b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 103/136] fix: quantizing a block of zeros divides by zero

---
 onnx_tool/quantization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 46c3c6c..0c52774 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -36,6 +36,8 @@ def find_min_max(f32: numpy.ndarray, block):
 
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
+    if alpha == 0:
+        return 1, 0
     scale = alpha / (2 ** (bits - 1) - 1)
     return scale, 0
 
@@ -44,6 +46,8 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmin = min(fmin, 0)
     fmax = max(fmax, 0)
     delta = fmax - fmin
+    if delta == 0:
+        return 1, 0
     scale = delta / (2 ** bits - 1)
     zp = round(-fmin / scale)
     return scale, zp
-- 
2.43.0


From 50934082fbd73ff10703c436b0b33d2b92269b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 104/136] fix: 4-bit codes are clipped to the 8-bit range

---
 onnx_tool/quantization.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 0c52774..a9548cf 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -53,12 +53,12 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     return scale, zp
 
 
-def symmetric_quant(fval, scale, *agrs):
-    return numpy.clip(round(fval / scale), -128, 127)
+def symmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale), -2 ** (bits - 1), 2 ** (bits - 1) - 1)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -81,7 +81,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -90,7 +90,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -100,7 +100,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
-- 
2.43.0


From 032cf55526e864574d15cf27a1e50deb6a376034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 105/136] fix: packing 4 bits loses the top bit of unsigned
 codes

---
 onnx_tool/quantization.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index a9548cf..8647ddb 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -110,10 +110,7 @@ def pack_4bits(Q_int:numpy.ndarray):
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xF
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
-- 
2.43.0


From dc215a3be4b8751dcbeaba44e22f4dc3e3ae37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 106/136] fix: packing 4 bits drops the last code of odd rows

---
 onnx_tool/quantization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 8647ddb..560d7f8 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -106,7 +106,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
 def pack_4bits(Q_int:numpy.ndarray):
     shape=Q_int.shape
     s4shape=list(shape)
-    s4shape[-1]=shape[-1]//2
+    s4shape[-1]=(shape[-1]+1)//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
@@ -117,7 +117,9 @@ def pack_4bits(Q_int:numpy.ndarray):
         rawi1=list(rawi)
         rawi1[-1]+=1
         lo4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi)]).value)
-        hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
+        hi4=0
+        if rawi1[-1]<shape[-1]:
+            hi4=cvt_s8bits_to_s4bits(ctypes.c_uint8(Q_int[tuple(rawi1)]).value)
         val=lo4|(hi4<<4)
         s4arr[i]=val
     return s4arr
-- 
2.43.0


From 38714120f11ec1303fbd8b62292ef1e9b9aee60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 107/136] fix: only the first user of a quantized weight is
 told its scheme

---
 onnx_tool/quantization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 560d7f8..bec7c43 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -144,9 +144,6 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     if isinstance(node,onnx_tool.node.GemmNode):
         if node.transB==0:
             f32arr=f32arr.transpose()
-    node.set_attr('OTQ_Block',block)
-    node.set_attr('OTQ_Type',type)
-    node.set_attr('OTQ_Bits',bits)
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
@@ -171,6 +168,9 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         g.add_initial(tname_z, zp)
     for nname in g.consumedby[tname]:
         node = g.nodemap[nname]
+        node.set_attr('OTQ_Block',block)
+        node.set_attr('OTQ_Type',type)
+        node.set_attr('OTQ_Bits',bits)
         idx = node.input.index(tname)
         node.input.remove(tname)
         if type == 'asym':
-- 
2.43.0


From 853c53651697f8a097622ae104ab5cbbe366fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:07 +0000
Subject: [PATCH 108/136] fix: the scale of a zero block is a float

---
 onnx_tool/quantization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index bec7c43..5be6d96 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -37,7 +37,7 @@ def find_min_max(f32: numpy.ndarray, block):
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
     if alpha == 0:
-        return 1, 0
+        return numpy.float32(1), 0
     scale = alpha / (2 ** (bits - 1) - 1)
     return scale, 0
 
@@ -47,7 +47,7 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmax = max(fmax, 0)
     delta = fmax - fmin
     if delta == 0:
-        return 1, 0
+        return numpy.float32(1), 0
     scale = delta / (2 ** bits - 1)
     zp = round(-fmin / scale)
     return scale, zp
-- 
2.43.0


From f655cf0025c6a7cdc73e7c80939b577eeb70f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:33 +0000
Subject: [PATCH 109/136] fix: the default weight map names the position
 embedding

---
 onnx_tool/llm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..a55e658 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -186,7 +186,8 @@ ArchMap['GPT2LMHeadModel'] = {
 
 WeightMap = {
     'embedding': {
-        'embed': 'model.embed_tokens'
+        'embed': 'model.embed_tokens',
+        'pos': 'model.embed_positions'
     },
     'layer_prefix': 'model.layers.',
     'attention': {
-- 
2.43.0


From 4a961fbb275d5aef1b371d9df7ee8e72562fc2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 110/136] fix: shape variables come from the input that
 declares them, not from the first one

---
 inference/infer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..cd193ee 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -246,8 +246,7 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_input(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
@@ -705,7 +704,7 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
+    def _update_shape_from_input(self, inputs: Dict[str, torch.Tensor]) -> bool:
         """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
         Returns:
@@ -715,7 +714,8 @@ class GraphInfer:
             self._last_var_values = {}
         changed = False
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            input_tensor = inputs.get(input_name)
+            if input_tensor is not None and len(desc) == len(input_tensor.shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
                         actual_val = int(input_tensor.shape[i])
-- 
2.43.0


From df2ea993b9993efadbf161d9f7b6271c7ccfa3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 111/136] fix: a failed forward leaves no views of other shapes
 behind

---
 inference/infer.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index cd193ee..6847555 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -299,8 +299,7 @@ class GraphInfer:
         rebuild_cache = (shape_changed
                          or not hasattr(self, '_last_node_tensors')
                          or self._last_node_tensors is None)
-        if rebuild_cache:
-            self._last_node_tensors = []
+        node_tensors = []
 
         for idx, node_name in enumerate(self._node_names):
             node = self._cg.nodemap[node_name]
@@ -406,12 +405,16 @@ class GraphInfer:
 
             # 缓存本次构建的 tensor 视图
             if rebuild_cache:
-                self._last_node_tensors.append((input_tensors, output_tensors))
+                node_tensors.append((input_tensors, output_tensors))
 
             # --- 检查输入输出重叠 ---
             if debug:
                 self._check_overlap(node)
 
+        # 全部节点执行成功后才启用缓存，中途失败的 forward 不留下残缺的视图
+        if rebuild_cache:
+            self._last_node_tensors = node_tensors
+
         # XPU 同步，确保所有 kernel 执行完毕
         if self.device == 'xpu' and not profile:
             torch.xpu.synchronize()
@@ -712,20 +715,24 @@ class GraphInfer:
         """
         if not hasattr(self, '_last_var_values'):
             self._last_var_values = {}
-        changed = False
+        actual_values = {}
         for input_name, desc in self.input_desc.items():
             input_tensor = inputs.get(input_name)
             if input_tensor is not None and len(desc) == len(input_tensor.shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
-                        actual_val = int(input_tensor.shape[i])
-                        old_val = self._last_var_values.get(dim_var)
-                        if old_val != actual_val:
-                            self.shape_engine.update_variable(dim_var, actual_val)
-                            self._last_var_values[dim_var] = actual_val
-                            changed = True
+                        actual_values[dim_var] = int(input_tensor.shape[i])
+        changed = any(self._last_var_values.get(dim_var) != actual_val
+                      for dim_var, actual_val in actual_values.items())
         if changed:
+            # 更新中途失败时，旧值、旧视图都不可再用
+            known_values = self._last_var_values
+            self._last_var_values = {}
+            self._last_node_tensors = None
+            for dim_var, actual_val in actual_values.items():
+                self.shape_engine.update_variable(dim_var, actual_val)
             self.shape_engine.update_variables()
+            self._last_var_values = {**known_values, **actual_values}
         return changed
 
     def _print_tensor_info(self, tname: str, prefix: str = ""):
-- 
2.43.0


From 2b30e80d3be427661df82a4b3508b06ab593cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 112/136] fix: the runtime plans memory for the element type it
 stores activations in

---
 inference/infer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 6847555..3ca7018 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -79,6 +79,13 @@ class GraphInfer:
         # 6. 内存压缩 + MemoryPool（compress_memory 基于最大 shape 分配）
         # 使用 graph.py 的 compress_memory（Best-Fit 策略，按大小降序重排以减少碎片）
         # 检测是否有 kv_cache tensor，有则使用 llm_test 的双池压缩
+        # 所有激活都以 self.dtype 存放，内存规划必须按该类型计算大小
+        for tname in self._cg.dynamics:
+            if tname in self._cg.tensormap:
+                tensor = self._cg.tensormap[tname]
+                tensor.dtype = np_dtype.type
+                if isinstance(tensor.numpy, np.ndarray):
+                    tensor.numpy = tensor.numpy.astype(np_dtype)
         has_kv_cache = 'kv_cache' in self._cg.tensormap
         if has_kv_cache:
             from benchmark.llm_test import compress_memory_with_kv_cache
-- 
2.43.0


From 36c84d1cee928c9975ffdf4ae0a8f6d229cf1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 113/136] fix: the runtime returns outputs that are constants
 or unplanned inputs

---
 inference/infer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 3ca7018..fc23070 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -434,6 +434,11 @@ class GraphInfer:
                 if shape is None:
                     shape = self.get_tensor_shape(output_name)
                 outputs[output_name] = self._reshape_view(output_name, shape)
+            else:
+                # 输出直接是常量或动态输入
+                output_tensor = self._resolve_tensor(output_name)
+                if output_tensor is not None:
+                    outputs[output_name] = output_tensor
 
         # 附加 profile 结果
         if profile:
-- 
2.43.0


From 324388e64b1b43dbd1f38a0dadbee23647212771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 114/136] fix: the memory pool rejects negative dimensions

---
 inference/memory_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/memory_pool.py b/inference/memory_pool.py
index 9fe5d9f..5269edc 100644
--- a/inference/memory_pool.py
+++ b/inference/memory_pool.py
@@ -105,6 +105,8 @@ class MemoryPool:
         if shape is not None:
             expected_elements = 1
             for d in shape:
+                if d < 0:
+                    raise ValueError(f"Shape {shape} of tensor '{key}' has a negative dimension")
                 expected_elements *= d
             if expected_elements > num_elements:
                 raise ValueError(
-- 
2.43.0


From 625e8578f631a26155c6e76fe6a3065bbc163a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:26 +0000
Subject: [PATCH 115/136] fix: MatMul weights stored in the model are not
 transposed

---
 inference/infer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index fc23070..c17e9d7 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -648,12 +648,17 @@ class GraphInfer:
             # 1. 尝试从 safetensors 加载
             if self.safetensors_path:
                 # 直接匹配名称
+                st_name = None
                 if tname in safetensors_data:
-                    t = safetensors_data[tname].to(device=self.device, dtype=self.dtype)
+                    st_name = tname
                 # 通过 weight_map 匹配
                 elif tname in self.weight_map and self.weight_map[tname] in safetensors_data:
                     st_name = self.weight_map[tname]
+                if st_name is not None:
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
+                    # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
+                    # （ONNX 内嵌数据已是 [K, N]，不转置）
+                    t = self._transpose_safetensors_tensor(t, const_consumer.get(tname, ('', {}))[0])
 
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
@@ -662,10 +667,6 @@ class GraphInfer:
                 )).to(device=self.device)
 
             if t is not None:
-                # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
-                op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
-
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
                     op_type, attrs = const_consumer[tname]
-- 
2.43.0


From 34c4d8ce9d8a4a6de6039ae813900097c61c1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 116/136] fix: Gemm transposes B itself, also when B is
 computed or shared

---
 inference/infer.py   |  2 +-
 inference/kernels.py | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index c17e9d7..2830091 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -525,7 +525,7 @@ class GraphInfer:
         """判断该 op_type 是否需要将 safetensors 的 [N, K] 转置为 [K, N]。
 
         MatMul: 需要，ONNX MatMul 期望 weight 为 [K, N]
-        Gemm: 不需要，Gemm 有 transB 属性，由 preprocess_weight 处理
+        Gemm: 不需要，Gemm 有 transB 属性，由 kernel 处理
         Gather/其他: 不需要，embed_tokens 等保持原样
         """
         return op_type == 'MatMul'
diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..e73de18 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -287,9 +287,8 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -297,14 +296,6 @@ class GemmKernel(Kernel):
         if C is not None:
             outputs[0].add_(beta * C)
 
-    @staticmethod
-    def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
-        transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
-        return tensor
-
 
 @KernelRegistry.register("MatMul")
 class MatMulKernel(Kernel):
-- 
2.43.0


From 32d25b51e916d8306198c4766cc279540e16f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 117/136] fix: the Squeeze kernel reads its axes from the
 second input

---
 inference/kernels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index e73de18..41a9bf7 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -438,7 +438,11 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
+        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
+        if len(inputs) > 1 and inputs[1] is not None:
+            axes = [int(x) for x in inputs[1].cpu().tolist()]
+        else:
+            axes = attrs.get('axes', None)
         if axes is not None:
             outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
         else:
-- 
2.43.0


From a4038b2a34e4bef6d3cf270fb9f96d186dd14fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 118/136] fix: negative axes of the Unsqueeze kernel count from
 the output rank

---
 inference/kernels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 41a9bf7..d0d96c4 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -463,7 +463,9 @@ class UnsqueezeKernel(Kernel):
 
         if axes is not None:
             t = inputs[0]
-            for ax in sorted(axes):
+            # 负数 axis 相对输出的维度计算
+            out_ndim = t.dim() + len(axes)
+            for ax in sorted(ax + out_ndim if ax < 0 else ax for ax in axes):
                 t = t.unsqueeze(ax)
             outputs[0].copy_(t)
         else:
-- 
2.43.0


From 3faa3fb95becb16d72b8a7ada20c7057b98712ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 119/136] fix: the Pad kernel pads the begin and the end it is
 told to, for modes and axes as stored

---
 inference/kernels.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index d0d96c4..a28b893 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -704,17 +704,26 @@ class PadKernel(Kernel):
         x = inputs[0]
         pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
         mode = attrs.get('mode', 'constant')
-        value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
+        if isinstance(mode, bytes):
+            mode = mode.decode()
+        value = inputs[2].item() if len(inputs) > 2 and inputs[2] is not None else attrs.get('value', 0.0)
+        if len(inputs) > 3 and inputs[3] is not None:
+            # axes 给出时 pads 只描述这些维度
+            axes = inputs[3].cpu().tolist()
+            full = [0] * (2 * x.dim())
+            for i, ax in enumerate(axes):
+                full[ax % x.dim()] = pads[i]
+                full[ax % x.dim() + x.dim()] = pads[i + len(axes)]
+            pads = full
 
         # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
-        # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
+        # F.pad: 从最后一个维度开始 (xn_begin, xn_end, ..., x1_begin, x1_end)
         ndim = len(pads) // 2
         pad_tuple = []
-        for i in range(ndim):
+        for i in range(ndim - 1, -1, -1):
             pad_tuple.append(pads[i])           # begin
             pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
+        pad_tuple = tuple(pad_tuple)
 
         torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
         outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
-- 
2.43.0


From 308bf5f7113d9f520216ba2e6e344a587f3f8b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 120/136] fix: the Conv kernel pads each side as given

---
 inference/kernels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index a28b893..7285e3d 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -125,7 +125,11 @@ class ConvKernel(Kernel):
         if len(pads) == 2:
             pad_h, pad_w = pads[0], pads[1]
         elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            pad_h, pad_w = pads[0], pads[1]
+            if pads[0] != pads[2] or pads[1] != pads[3]:
+                # conv2d 只支持对称 padding
+                x = F.pad(x, (pads[1], pads[3], pads[0], pads[2]))
+                pad_h, pad_w = 0, 0
         else:
             pad_h, pad_w = 0, 0
 
-- 
2.43.0


From 6aaf88cd25f2e763d2f93e8079f7f16715b1d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 121/136] fix: the pooling kernels follow pads, ceil_mode,
 dilations and count_include_pad

---
 inference/kernels.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7285e3d..cff57b6 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -347,14 +347,28 @@ class AveragePoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
+        ceil_mode = bool(attrs.get('ceil_mode', 0))
+        include_pad = bool(attrs.get('count_include_pad', 0))
+
         if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            pad_h, pad_w = pads[0], pads[1]
         else:
             pad_h, pad_w = 0, 0
 
-        outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
-        )
+        if len(pads) == 4 and (pads[0] != pads[2] or pads[1] != pads[3]):
+            # avg_pool2d 只支持对称 padding：分别求窗口内的和与元素个数
+            sides = (pads[1], pads[3], pads[0], pads[2])
+            count = F.pad(torch.ones_like(x), sides, value=1.0 if include_pad else 0.0)
+            total = F.avg_pool2d(F.pad(x, sides), kernel_shape, stride=strides,
+                                 ceil_mode=ceil_mode, divisor_override=1)
+            count = F.avg_pool2d(count, kernel_shape, stride=strides,
+                                 ceil_mode=ceil_mode, divisor_override=1)
+            outputs[0].copy_(total / count)
+        else:
+            outputs[0].copy_(
+                F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w),
+                             ceil_mode=ceil_mode, count_include_pad=include_pad)
+            )
 
 
 @KernelRegistry.register("MaxPool")
@@ -369,12 +383,18 @@ class MaxPoolKernel(Kernel):
         pads = attrs.get('pads', (0, 0, 0, 0))
 
         if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            pad_h, pad_w = pads[0], pads[1]
+            if pads[0] != pads[2] or pads[1] != pads[3]:
+                # max_pool2d 只支持对称 padding
+                x = F.pad(x, (pads[1], pads[3], pads[0], pads[2]), value=float('-inf'))
+                pad_h, pad_w = 0, 0
         else:
             pad_h, pad_w = 0, 0
 
         outputs[0].copy_(
-            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w),
+                         dilation=attrs.get('dilations', (1, 1)),
+                         ceil_mode=bool(attrs.get('ceil_mode', 0)))
         )
 
 
-- 
2.43.0


From b9b2747d6f266e476b65568f870843bc634ced33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 122/136] fix: the Resize kernel honours align_corners as
 stored, with scales too, and always writes its output

---
 inference/kernels.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index cff57b6..0539314 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -760,12 +760,18 @@ class ResizeKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
+        if len(inputs) == 2:
+            # Resize-10: inputs[1] = scales
+            inputs = [inputs[0], None, inputs[1]]
         # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes
+        coord_mode = attrs.get('coordinate_transformation_mode', 'half_pixel')
+        if isinstance(coord_mode, bytes):
+            coord_mode = coord_mode.decode()
+        align_corners = coord_mode == 'align_corners'
         if len(inputs) > 3 and inputs[3] is not None:
             sizes = inputs[3].cpu().tolist()
             # sizes 是 [N, C, H, W] 格式
             mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
             torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
             result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
             outputs[0].copy_(result)
@@ -774,8 +780,10 @@ class ResizeKernel(Kernel):
             sizes = [int(x.shape[i] * scales[i]) for i in range(len(scales))]
             mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
             torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode)
+            result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
             outputs[0].copy_(result)
+        else:
+            raise ValueError('Resize needs scales or sizes')
 
 
 # ===========================================================================
-- 
2.43.0


From 613d9ac94a02945bfac70263caf093ffbf817796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 123/136] fix: an RMS norm read from a model file stays an RMS
 norm

---
 inference/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index 0539314..1f66423 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -887,6 +887,9 @@ class LayerNormKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
         eps = attrs.get('epsilon', 1e-5)
         norm_type = attrs.get('type', 'layer')
+        if isinstance(norm_type, bytes):
+            # 从 ONNX 文件读入的字符串属性是 bytes
+            norm_type = norm_type.decode()
 
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
-- 
2.43.0


From 214cfc2ce50dfbeb5baa5fe638f38d93a76e967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 124/136] fix: SDPA stores the heads of 4-D keys and values
 position by position

---
 inference/kernels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 1f66423..bcb2261 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -952,7 +952,7 @@ class SDPAKernel(Kernel):
             kv_hidden_size = k.shape[-1]  # 保存原始 K 的最后一维
         else:
             head_dim = q.shape[-1]
-            kv_hidden_size = k.shape[-1] * k.shape[-2] if k.dim() == 4 else k.shape[-1]
+            kv_hidden_size = k.shape[-1] * k.shape[1] if k.dim() == 4 else k.shape[-1]
 
         # 统一转为 4D [B, N, S, head_dim]
         if q.dim() == 3:
@@ -985,13 +985,15 @@ class SDPAKernel(Kernel):
             cache_k = cache_k.reshape(B, n_past, kv_head_num, head_dim).transpose(1, 2)
             cache_v = cache_v.reshape(B, n_past, kv_head_num, head_dim).transpose(1, 2)
 
+            # 当前 K/V 按 [B, S, kv_hidden_size] 排列，与 kv_cache 一致
+            curr_k_flat = k.transpose(1, 2).reshape(B, S, -1)
+            curr_v_flat = v.transpose(1, 2).reshape(B, S, -1)
+
             # 拼接历史和当前
             k = torch.cat([cache_k, k], dim=2)  # [B, kv_head_num, n_past+S, head_dim]
             v = torch.cat([cache_v, v], dim=2)
 
             # 把当前 K/V 写回 kv_cache（只写 kv_hidden_size 个元素）
-            curr_k_flat = inputs[1].reshape(B, S, -1)  # [B, S, kv_hidden_size]
-            curr_v_flat = inputs[2].reshape(B, S, -1)  # [B, S, kv_hidden_size]
             kv_cache[:, layer_i * 2, n_past:n_past + S, :kv_hidden_size] = curr_k_flat
             kv_cache[:, layer_i * 2 + 1, n_past:n_past + S, :kv_hidden_size] = curr_v_flat
 
-- 
2.43.0


From 6516e66c60a1b0a1e8b00bb312cfa1fd979415f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 125/136] fix: the Gather kernel keeps the dimensions of its
 indices

---
 inference/kernels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index bcb2261..389877b 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -517,13 +517,13 @@ class GatherKernel(Kernel):
         indices = inputs[1].long()
         # ONNX Gather: data[indices, ...] 沿 axis 维收集
         # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
+        if indices.dim() != 1:
+            # 标量或多维 indices: 需要先展平再 reshape
             flat_idx = indices.reshape(-1)
             result = torch.index_select(data, axis, flat_idx)
             # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
+            axis = axis % data.dim()
+            out_shape = list(data.shape[:axis]) + list(indices.shape) + list(data.shape[axis + 1:])
             outputs[0].copy_(result.reshape(out_shape))
         else:
             outputs[0].copy_(torch.index_select(data, axis, indices))
-- 
2.43.0


From 48e8a7a6c2cd6334b585b53380d216cc9fd1994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 126/136] fix: operators with omitted operands are not lost
 when reordering

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1903c10..475650b 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -964,7 +964,8 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             for tname in node.output:
-                produced_by[tname] = name
+                if len(tname) > 0:  # '' is an omitted output
+                    produced_by[tname] = name
 
         consumed_by = {}
         dependencies = {}
-- 
2.43.0


From 71399bb5b13b99cf7c21aea7a31df3cd202d7047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:25 +0000
Subject: [PATCH 127/136] fix: an omitted operand is not an input of the graph

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 475650b..b9f29e7 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -260,7 +260,7 @@ class Graph():
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
-                if tensor not in self.producedby and tensor in self.dynamics:
+                if tensor not in self.producedby and tensor in self.dynamics and tensor != '':
                     if tensor not in self.input:
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
-- 
2.43.0


From 4f2a354fefb62e7d2e16fb1ecbed8a682e7c9c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:25 +0000
Subject: [PATCH 128/136] fix: operators with equal or missing names are all
 kept

---
 onnx_tool/graph.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b9f29e7..55859fd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -434,10 +434,19 @@ class Graph():
         if topk_node > 0:
             self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
 
+    def __free_node_name__(self, name, reserved=()):
+        # operators are stored by name: two of them never share one
+        free, count = name, 0
+        while free in self.nodemap or free in reserved:
+            count += 1
+            free = name + '_' + str(count)
+        return free
+
     def __add_node_from_proto__(self, node_proto):
         newnode = create_node(node_proto)
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
+        newnode.name = self.__free_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
             if tensor in self.producedby:
@@ -463,10 +472,13 @@ class Graph():
 
         tm = timer()
         tm.start()
+        given = set() if noderename else set(node.name for node in g.node)
         for node in g.node:
             newnode = create_node(node)
             if noderename or len(newnode.name) == 0:
-                newnode.name = newnode.op_type + '_' + str(self.node_count)
+                newnode.name = self.__free_node_name__(newnode.op_type + '_' + str(self.node_count), given)
+            else:
+                newnode.name = self.__free_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
                 if tensor in self.producedby:
-- 
2.43.0


From d72119bf21b5bd9367803aeb35c578ba05d349a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:25 +0000
Subject: [PATCH 129/136] fix: the chosen branch of an If takes its place, with
 names of its own, and only the condition goes

---
 onnx_tool/graph.py | 121 ++++++++++++++++++++++-----------------------
 1 file changed, 59 insertions(+), 62 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 55859fd..0cb62bb 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -339,69 +339,64 @@ class Graph():
         self.dynamics = list(self.producedby.keys())
 
     def __remove_if__(self):
+        selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
+        conditions = []
+        captured = {}  # names nested If nodes see, where they differ from the names in the graph
         while True:
-            prekeys = list(self.nodemap.keys())
-            remove_list = []
-            selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-            for n in prekeys:
-                node = self.nodemap[n]
-                if node.op_type == 'If':
-                    # remove condition node chain
-                    sub_input = []
-                    for node_proto in node.attr[selected_branch].node:
-                        for ipn in node_proto.input:
-                            sub_input.append(ipn)
-                    node_list = [node.name]
-                    while len(node_list):
-                        remove = True
-                        sname = node_list.pop(0)
-                        snode = self.nodemap[sname]
-                        for ipn in snode.input:
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
-                            self.consumedby[ipn].remove(sname)
-                        if remove:
-                            remove_list.append(sname)
-                    # add branch node
-                    names = []
-                    for initial in node.attr[selected_branch].initializer:
-                        self.tensormap[initial.name] = Tensor(initial)
-                        self.initials.append(initial.name)
-                    for node_proto in node.attr[selected_branch].node:
-                        names.append(self.__add_node_from_proto__(node_proto))
-
-                    # revise output name
-                    newoutputs = {}
-                    for preoutput, newoutput in zip(node.attr[selected_branch].output, node.output):
-                        newoutputs[preoutput.name] = newoutput
-                    for newname in names:
-                        newnode = self.nodemap[newname]
-                        for tensor in newnode.input:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                        for tensor in newnode.output:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                            if tensor in self.consumedby:
-                                for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v in newoutputs:
-                                newnode.output[i] = newoutputs[v]
-                                self.producedby[newoutputs[v]].append(newname)
-                                self.producedby.pop(v)
-                        for i, v in enumerate(newnode.input):
-                            if v in newoutputs:
-                                newnode.input[i] = newoutputs[v]
-                                self.consumedby[v].remove(newname)
-                                if newoutputs[v] not in self.consumedby:
-                                    self.consumedby[newoutputs[v]] = []
-                                self.consumedby[newoutputs[v]].append(newname)
-            if len(remove_list)==0:
+            ifnodes = [node for node in self.nodemap.values() if node.op_type == 'If']
+            if len(ifnodes) == 0:
                 break
-            for n in remove_list:
-                self.remove_node(n)
+            for node in ifnodes:
+                branch = node.attr[selected_branch]
+                produced = [o for node_proto in branch.node for o in node_proto.output if o != '']
+                # tensors of the branch: its results are those of the If, the others must not hide tensors of the graph
+                renames = dict(captured.get(node.name, {}))
+                for name in [initial.name for initial in branch.initializer] + produced:
+                    free = name
+                    while free in self.tensormap:
+                        free = node.name + '_' + free
+                    renames[name] = free
+                for preoutput, newoutput in zip(branch.output, node.output):
+                    if preoutput.name in produced:
+                        renames[preoutput.name] = newoutput
+
+                behind = list(self.nodemap.keys())
+                behind = behind[behind.index(node.name) + 1:]
+                conditions.extend(node.input)
+                graph_outputs = list(self.output)
+                self.remove_node(node.name)
+                self.output = graph_outputs
+
+                # add branch node
+                for initial in branch.initializer:
+                    tensor = Tensor(initial)
+                    tensor.name = renames[initial.name]
+                    self.tensormap[tensor.name] = tensor
+                    self.initials.append(tensor.name)
+                names = []
+                for node_proto in branch.node:
+                    names.append(self.__add_node_from_proto__(node_proto, renames))
+                    captured[names[-1]] = renames
+                for newname in names:
+                    newnode = self.nodemap[newname]
+                    for tensor in newnode.input + newnode.output:
+                        if tensor not in self.tensormap.keys():
+                            self.tensormap[tensor] = Tensor(tensor)
+                    for tensor in newnode.output:
+                        for consumer in self.consumedby.get(tensor, []):
+                            newnode.nextnodes.append(self.nodemap[consumer])
+                # the branch takes the place of the If
+                for name in behind:
+                    self.nodemap[name] = self.nodemap.pop(name)
+
+        # remove condition node chain
+        while len(conditions):
+            for name in list(self.producedby.get(conditions.pop(0), [])):
+                node = self.nodemap[name]
+                if any(o in self.output or len(self.consumedby.get(o, [])) > 0 for o in node.output):
+                    continue
+                conditions.extend(node.input)
+                self.remove_node(name)
 
     def __set_fixed_topk(self, fixed_k):
         prekeys = list(self.nodemap.keys())
@@ -442,13 +437,14 @@ class Graph():
             free = name + '_' + str(count)
         return free
 
-    def __add_node_from_proto__(self, node_proto):
+    def __add_node_from_proto__(self, node_proto, renames={}):
         newnode = create_node(node_proto)
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
         newnode.name = self.__free_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
+            tensor = renames.get(tensor, tensor)
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
@@ -457,6 +453,7 @@ class Graph():
             self.consumedby[tensor].append(newnode.name)
             newnode.input.append(tensor)
         for tensor in node_proto.output:
+            tensor = renames.get(tensor, tensor)
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
-- 
2.43.0


From 8c04629f4f4edf80690f6b5b43baabe513f917b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:06 +0000
Subject: [PATCH 130/136] fix: a branch of an If may yield a constant

---
 onnx_tool/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0cb62bb..c060f69 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -348,16 +348,17 @@ class Graph():
                 break
             for node in ifnodes:
                 branch = node.attr[selected_branch]
-                produced = [o for node_proto in branch.node for o in node_proto.output if o != '']
+                defined = [initial.name for initial in branch.initializer]
+                defined += [o for node_proto in branch.node for o in node_proto.output if o != '']
                 # tensors of the branch: its results are those of the If, the others must not hide tensors of the graph
                 renames = dict(captured.get(node.name, {}))
-                for name in [initial.name for initial in branch.initializer] + produced:
+                for name in defined:
                     free = name
                     while free in self.tensormap:
                         free = node.name + '_' + free
                     renames[name] = free
                 for preoutput, newoutput in zip(branch.output, node.output):
-                    if preoutput.name in produced:
+                    if preoutput.name in defined:
                         renames[preoutput.name] = newoutput
 
                 behind = list(self.nodemap.keys())
-- 
2.43.0


From 680adbd15695616037f710e544f39b7bafed6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:51 +0000
Subject: [PATCH 131/136] fix: an omitted operand or result connects no
 operators

---
 onnx_tool/graph.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c060f69..0813879 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -265,6 +265,8 @@ class Graph():
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
+                    if tensor == '':
+                        continue
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
@@ -326,10 +328,14 @@ class Graph():
         for name in self.nodemap:
             node = self.nodemap[name]
             for tensor in node.input:
+                if tensor == '':  # omitted
+                    continue
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
             for tensor in node.output:
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(node.name)
@@ -446,6 +452,9 @@ class Graph():
         self.node_count += 1
         for tensor in node_proto.input:
             tensor = renames.get(tensor, tensor)
+            if tensor == '':  # omitted
+                newnode.input.append(tensor)
+                continue
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
@@ -455,6 +464,9 @@ class Graph():
             newnode.input.append(tensor)
         for tensor in node_proto.output:
             tensor = renames.get(tensor, tensor)
+            if tensor == '':
+                newnode.output.append(tensor)
+                continue
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
@@ -479,6 +491,9 @@ class Graph():
                 newnode.name = self.__free_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
+                if tensor == '':  # omitted
+                    newnode.input.append(tensor)
+                    continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
@@ -487,6 +502,9 @@ class Graph():
                 self.consumedby[tensor].append(newnode.name)
                 newnode.input.append(tensor)
             for tensor in node.output:
+                if tensor == '':
+                    newnode.output.append(tensor)
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(newnode.name)
@@ -746,7 +764,7 @@ class Graph():
         node = self.nodemap[nodename]
         count = 0
         for input in node.input:
-            if input in self.dynamics:
+            if input in self.dynamics and input != '':
                 count += 1
                 indtensor = input
         if count != 1 or len(node.output) != 1:
@@ -1040,6 +1058,8 @@ class Graph():
                     intensors.append(input)
 
             for output in self.nodemap[name].output:
+                if len(output) == 0:
+                    continue
                 if remove_initials and output in self.initials:
                     continue
                 if output in self.consumedby:
-- 
2.43.0


From 70c5a680f61469454ce73b292e51c972aec4caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:51 +0000
Subject: [PATCH 132/136] fix: the compute graph keeps operators whose other
 results or outputs are needed

---
 onnx_tool/graph.py | 46 +++++++++++++---------------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0813879..b042ff3 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1482,39 +1482,19 @@ class Graph():
 
     def get_compute_graph(self):
         cg = self.__copy_structure__()
-        nodes = []
-        rmnodes = []
-        for key in cg.nodemap.keys():
-            node = cg.nodemap[key]
-            if node.shape_calc:
-                rmnodes.append(key)
-                continue
-            dummy_node = True
-            for output in node.output:
-                dummy = True
-                if output in cg.consumedby.keys():
-                    for consumer in cg.consumedby[output]:
-                        if not cg.nodemap[consumer].shape_calc:
-                            dummy = False
-                            break
-                else:
-                    dummy = False
-                dummy_node = dummy_node and dummy
-            if dummy_node:
-                rmnodes.append(key)
-                searchnodes = [key]
-                while len(searchnodes) > 0:
-                    this_node = self.nodemap[searchnodes[0]]
-                    searchnodes.pop(0)
-                    for input in this_node.input:
-                        if input in self.producedby:
-                            if len(self.consumedby[input]) == 1:
-                                pnodename = self.producedby[input][0]
-                                if pnodename not in rmnodes:
-                                    rmnodes.append(pnodename)
-                                searchnodes.append(pnodename)
-                continue
-            nodes.append(node.name)
+        rmnodes = [key for key in cg.nodemap.keys() if cg.nodemap[key].shape_calc]
+        # operators whose results only serve operators that are removed
+        searching = True
+        while searching:
+            searching = False
+            for key in reversed(list(cg.nodemap.keys())):
+                outputs = cg.nodemap[key].output
+                consumers = [name for output in outputs for name in cg.consumedby.get(output, [])]
+                if key in rmnodes or len(consumers) == 0 or any(output in cg.output for output in outputs):
+                    continue
+                if all(name in rmnodes for name in consumers):
+                    rmnodes.append(key)
+                    searching = True
         self.log(f'Total Nodes:{len(cg.nodemap)} Removed Shape Nodes:{len(rmnodes)}')
         for key in rmnodes:
             cg.remove_node(key)
-- 
2.43.0


From 06a6e3290e1006d76c3851283fa494700b1f60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:01 +0000
Subject: [PATCH 133/136] fix: fusing post operators keeps the operand
 positions of the main operator

---
 onnx_tool/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b042ff3..3f90a8c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -829,6 +829,8 @@ class Graph():
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
+        # the operands of the main operator keep their positions
+        _inputs = list(mainnode.input) + [tensor for tensor in _inputs if tensor not in mainnode.input]
         newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
         count = 0
         for attr in mainnode.proto.attribute:
@@ -867,6 +869,8 @@ class Graph():
         newnode.input = _inputs
         newnode.output = _outputs
         for i in _inputs:
+            if i == '':
+                continue
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
             else:
-- 
2.43.0


From 46675258f3289d75a850dc217ecf656f2973cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:16 +0000
Subject: [PATCH 134/136] fix: inputs and constants that are outputs stay in
 the graph

---
 onnx_tool/graph.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3f90a8c..27909c2 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -244,6 +244,14 @@ class Graph():
                     if tname not in self.dynamics:
                         self.dynamics.append(tname)
 
+        # an input or a constant may be an output without being used by any node
+        for tname in self.output:
+            if tname in self.tensormap and tname not in self.initials and tname not in self.dynamics:
+                if self.tensormap[tname].type == STATIC_TENSOR:
+                    self.initials.append(tname)
+                else:
+                    self.dynamics.append(tname)
+
         valid_tensors = []
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
@@ -270,6 +278,9 @@ class Graph():
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
+        for tensor in self.output:
+            if tensor not in self.producedby and tensor in self.dynamics and tensor not in self.input:
+                self.input.append(tensor)
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
-- 
2.43.0


From 3ce2e28dea62449c5c6fda59952b8ce34df602a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:16 +0000
Subject: [PATCH 135/136] fix: shape descriptors hold plain integers

---
 onnx_tool/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 27909c2..0d6edb0 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1188,8 +1188,8 @@ class Graph():
             if key in input_desc.keys():
                 continue
             shape_desc = []
-            minshape = mintensormap[key].shape
-            maxshape = maxtensormap[key].shape
+            minshape = mintensormap[key].get_shape()
+            maxshape = maxtensormap[key].get_shape()
             for i, a in zip(minshape, maxshape):
                 if i == a:
                     shape_desc.append(i)
@@ -1229,7 +1229,7 @@ class Graph():
             for vkey in mintensormap.keys():
                 if vkey in input_desc.keys():
                     continue
-                shapes = [mintensormap[vkey].shape, shapes_range[0][vkey].shape, shapes_range[1][vkey].shape]
+                shapes = [tmap[vkey].get_shape() for tmap in [mintensormap] + shapes_range]
                 for i in range(len(shapes[0])):
                     if shapes[0][i] != shapes[1][i] or shapes[0][i] != shapes[2][i]:
                         newrange = [val[i] for val in shapes]
-- 
2.43.0


From 072c0f7d81f6abc43b3eb5182ec78c54faf61584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:16 +0000
Subject: [PATCH 136/136] fix: a regressed size is derived from the variable it
 fits best

---
 onnx_tool/graph.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0d6edb0..9457023 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1246,15 +1246,14 @@ class Graph():
                                                 srcvalkey.append(ele)
                             dstranges.append(newrange)
                             vidx = vcount + len(dstranges) - 1
-                            if len(srcvalkey) == 0:
-                                expr = ValueExpr(dstranges[0], newrange)
-                                err = expr.error(dstranges[0], newrange)
-                                srckey = key
-                            else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
+                            # the first of the variables the samples fit best
+                            srckey, expr, err = None, None, None
+                            for candidate in srcvalkey + [key]:
+                                srcs = tensor_range_map.get(candidate, dstranges[0])
+                                candidate_expr = ValueExpr(srcs, newrange)
+                                candidate_err = candidate_expr.error(srcs, newrange)
+                                if err is None or candidate_err < err:
+                                    srckey, expr, err = candidate, candidate_expr, candidate_err
                             if err > 0:
                                 warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
 
-- 
2.43.0

