From 0b19d6e44fb671d514b15f17bb87cc5900549e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 01/88] fix: ONNX Reduce*/Tile import with multi-character
 tensor names, attribute axes and negative axes

---
 .../importers/ONNX_importer/create_layer.py   | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..a23fad6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -751,7 +751,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -784,14 +784,14 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -802,7 +802,7 @@ def create_reduce_sum(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -838,14 +838,14 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -856,7 +856,7 @@ def create_reduce_max(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -892,14 +892,14 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -910,7 +910,7 @@ def create_reduce_min(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -946,14 +946,14 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -964,7 +964,7 @@ def create_reduce_mean(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -1000,14 +1000,14 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1018,7 +1018,7 @@ def create_reduce_prod(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
-- 
2.43.0


From 66d82ab335144dbe0c852d457287e43b053fe4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 02/88] fix: Reduce C code compares and starts from the wrong
 elements for Max/Min over two axes, and copies nothing when no axis is
 reduced

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py     | 10 +++++-----
 .../templates/layers/template_Reduce.c.tpl             |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..0400a5a 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,10 +169,10 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            if self.noop_with_empty_axes or self.axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 0860daa06f93916a4d6597b1122e608f9ed7da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 03/88] fix: ONNX Gather/GatherElements import with negative
 indices (read-only array) and with the default axis on tensors of rank < 4

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a23fad6..98b8fcc 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -495,10 +495,10 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
-    elif attributes["axis"] < 0:
+    if attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
         attributes["axis"] = len(input_shape) + attributes["axis"] - original_len_shape
@@ -534,10 +534,10 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
-    elif attributes["axis"] < 0:
+    if attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
         attributes["axis"] = len(input_shape) + attributes["axis"] - original_len_shape
-- 
2.43.0


From 123de49d5248370a9693c14773b732b3ef4d33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 04/88] fix: reject an ONNX Gather with multi-dimensional
 indices instead of generating out-of-bounds reads

---
 src/acetone_nnet/generator/layers/gather/Gather.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..66c10f9 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -114,6 +114,13 @@ class Gather(Layer):
                 msg += (f"Error: indice out of bound in Gather "
                         f"({indice}out of bound for input of size {input_shape[self.axis]})")
                 msg += "\n"
+        expected_shape = [self.input_channels, self.input_height, self.input_width]
+        if axis in [1, 2, 3]:
+            expected_shape[axis - 1] = self.indices.size
+        if expected_shape != [self.output_channels, self.output_height, self.output_width]:
+            msg += (f"Error: non consistency between the input shape, the indices and the output shape in Gather "
+                    f"({expected_shape}!=({self.output_channels}, {self.output_height}, {self.output_width}))")
+            msg += "\n"
         if msg:
             raise ValueError(msg)
 
-- 
2.43.0


From 331871fd77d093366e27f3a454f07c0aea955f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 05/88] fix: ONNX Pad import without a constant value and with
 (negative) axes

---
 .../importers/ONNX_importer/create_layer.py   | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 98b8fcc..bd77952 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -456,23 +456,32 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
+    # Pads and value of the constant, which is optional
+    pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    constant_value = 0.0
+    if len(initializers) > 1 and initializers[1]:
+        constant_value = onnx.numpy_helper.to_array(initializers[1]).item()
+
+    # Express the axes, and the pads of all axes, on the extended input shape
+    original_len_shape = len(get_shape(node.input[0], model, extend=False))
+    if len(initializers) > 2 and initializers[2]:
+        axes = onnx.numpy_helper.to_array(initializers[2]).tolist()
     else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+        axes = list(range(original_len_shape))
+    axes = [
+        axe + len(input_shape) - (original_len_shape if axe >= 0 else 0) for axe in axes
+    ]
+    full_pads = [0] * (2 * len(input_shape))
+    for i, axe in enumerate(axes):
+        full_pads[axe] = pads[i]
+        full_pads[axe + len(input_shape)] = pads[i + len(axes)]
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
+        pads=full_pads,
+        constant_value=float(constant_value),
         axes=axes,
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
-- 
2.43.0


From 118ac14ed2f77867bbe13da9366377e64d476b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 06/88] fix: edge, reflect and wrap Pad apply the fused
 activation function twice in C

---
 .../templates/layers/Pad/template_Pad_Non_Constant.c.tpl       | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..cc86433 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -15,9 +15,6 @@
                 {{^linear}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
                 {{/linear}}
-                {{#activation_function}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/activation_function}}
             }
         }
     }
-- 
2.43.0


From 5ebd4273a74c717a262839b342ad11ec9352c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 07/88] fix: reflect Pad divides by zero on a dimension of size
 1 and wrap Pad reads out of bounds for pads multiple of the dimension

---
 .../layers/padding/reflect_pad/ReflectPadDefault.py         | 4 ++++
 .../templates/layers/Pad/template_Reflect_Pad.c.tpl         | 6 +++---
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
index 22efb2f..1c76b5b 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
@@ -47,6 +47,10 @@ class ReflectPadDefault(ReflectPad):
         mustach_hash["channels_max"] = self.input_shape[1] - 1
         mustach_hash["height_max"] = self.input_shape[2] - 1
         mustach_hash["width_max"] = self.input_shape[3] - 1
+        # The reflection of a dimension of size 1 is constant
+        mustach_hash["channels_period"] = max(2 * (self.input_shape[1] - 1), 1)
+        mustach_hash["height_period"] = max(2 * (self.input_shape[2] - 1), 1)
+        mustach_hash["width_period"] = max(2 * (self.input_shape[3] - 1), 1)
 
         with open(self.template_path / "layers" / "Pad" / "template_Reflect_Pad.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
index 639089c..c1af31d 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
@@ -1,4 +1,4 @@
-                new_f = ({{pads_front}} - f) % (2*{{channels_max}});
+                new_f = ({{pads_front}} - f) % ({{channels_period}});
                 if(new_f < 0)
                 {
                     new_f = 2*{{channels_max}} + new_f;
@@ -8,7 +8,7 @@
                     new_f = 2*{{channels_max}} - new_f;
                 }
 
-                new_i = ({{pads_top}} - i) % (2*{{height_max}});
+                new_i = ({{pads_top}} - i) % ({{height_period}});
                 if(new_i < 0)
                 {
                     new_i = 2*{{height_max}} + new_i;
@@ -18,7 +18,7 @@
                     new_i = 2*{{height_max}} - new_i;
                 }
 
-                new_j = ({{pads_left}} - j) % (2*{{width_max}});
+                new_j = ({{pads_left}} - j) % ({{width_period}});
                 if(new_j < 0)
                 {
                     new_j = 2*{{width_max}} + new_j;
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From 2823618e10d69a59e1ba10842109a453690edbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 08/88] fix: Sub/Div/Mul/Max/Min/Mean with constant operands,
 and Python reference of broadcasting layers

Constant operands were folded into 1/c or -c applied on the wrong side,
dropped when one element was the identity, or lost their shape; they now
become Constant inputs like those of Add.  The Python reference of Add, Sub,
Mul and Div failed when the first operand is the broadcast one; Max, Min and
Mean did not reshape their operands and Mean modified its first input.
---
 .../generator/layers/broadcast/add/Add.py     |   4 +-
 .../layers/broadcast/average/Average.py       |   6 +-
 .../layers/broadcast/divide/Divide.py         |   2 +-
 .../layers/broadcast/maximum/Maximum.py       |   6 +-
 .../layers/broadcast/minimum/Minimum.py       |   6 +-
 .../layers/broadcast/multiply/Multiply.py     |   2 +-
 .../layers/broadcast/subtract/Subtract.py     |   2 +-
 .../importers/ONNX_importer/create_layer.py   | 108 ++++--------------
 8 files changed, 35 insertions(+), 101 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..22d218b 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,14 +118,14 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
                     np.copy(input_arrays[0])
                     .reshape(self.input_shapes[0][1:])
                     .astype(dtype=np.int64))
-                out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
+                out_i64 = out_i64 + np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..0816952 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,9 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..b2c543f 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,9 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            maxi = np.maximum(maxi, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..9c99532 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,9 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            mini = np.minimum(mini, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index bd77952..e9d8fda 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1174,6 +1174,18 @@ def _collect_node_inputs(
     return collected
 
 
+def _broadcast_operands(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+) -> tuple[list[str], np.ndarray]:
+    """Collect the operands of a broadcast layer, constants included, in order."""
+    names, shapes = [], []
+    for name, shape in _collect_node_inputs(model, node):
+        names.append(name)
+        shapes.append([1] * (4 - len(shape)) + list(shape))
+    return names, np.array(shapes)
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1186,14 +1198,7 @@ def create_add(
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    dict_input[idx] = []
-    input_shapes = []
-    inputs = _collect_node_inputs(model, node)
-    for name, shape in inputs:
-        while len(shape) < 4:
-            shape = (1, *shape)
-        input_shapes.append(list(shape))
-        dict_input[idx].append(name)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Add(
         original_name=node.name,
         idx=idx,
@@ -1213,31 +1218,10 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Divide(
         original_name=node.name,
         idx=idx,
@@ -1245,7 +1229,6 @@ def create_div(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1258,29 +1241,10 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Multiply(
         original_name=node.name,
         idx=idx,
@@ -1288,7 +1252,6 @@ def create_mul(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1301,29 +1264,10 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Subtract(
         original_name=node.name,
         idx=idx,
@@ -1331,7 +1275,6 @@ def create_sub(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1344,18 +1287,15 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Maximum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1370,18 +1310,15 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Minimum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1396,12 +1333,9 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Average(
         original_name=node.name,
-- 
2.43.0


From 197d63f2458e3ef6dcb98ada8c1c90f747f8e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 09/88] fix: ONNX Gemm import without bias, with alpha only and
 with broadcast biases

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py     |  2 +-
 .../importers/ONNX_importer/create_layer.py        | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..bfb11f3 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -100,7 +100,7 @@ class Gemm(Layer):
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
+        if self.beta != [] and (
             type(self.beta[0]) is not float and type(self.beta[0]) is int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e9d8fda..a58fdbb 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -584,10 +584,16 @@ def create_gemm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
-    if len(node.input) == 3:  # noqa: PLR2004
+    weights = onnx.numpy_helper.to_array(b_tensor)
+    if len(node.input) == 3 and node.input[2]:  # noqa: PLR2004
         c_tensor = look_for_initializer(node.input[2], model)
+        bias = np.broadcast_to(onnx.numpy_helper.to_array(c_tensor), output_shape[2:])
+        if (bias != bias[0]).any():
+            msg = "Error: Gemm bias must be the same for all rows of the output"
+            raise ValueError(msg)
+        bias = bias[0].copy()
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros(output_shape[3], dtype=weights.dtype)
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -604,8 +610,8 @@ def create_gemm(
         beta=attributes["beta"],
         transA=attributes["transA"],
         transB=attributes["transB"],
-        weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        weights=weights,
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From 2274d10bad1fe0e38c3d296ff265f5361015ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 10/88] fix: MatMul C code with operands having different
 numbers of channels

---
 src/acetone_nnet/generator/layers/matmul/MatMul.py        | 5 ++++-
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 2 ++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMul.py b/src/acetone_nnet/generator/layers/matmul/MatMul.py
index e72904a..7b0270b 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMul.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMul.py
@@ -50,7 +50,7 @@ class MatMul(Layer):
         self.local_var = "dotproduct"
         self.input_shapes = input_shapes
 
-        self.output_channels = self.input_shapes[0][1]
+        self.output_channels = max(self.input_shapes[0][1], self.input_shapes[1][1])
         self.output_height = self.input_shapes[0][-2]
         self.output_width = self.input_shapes[1][-1]
         self.shared_dimension = self.input_shapes[0][-1]
@@ -60,6 +60,9 @@ class MatMul(Layer):
         if self.input_shapes[1][-2] != self.input_shapes[0][-1]:
             msg = f"Error: non consistency between weight shape and input shape in MatMul ({self.input_shapes[1][-2]}!={self.input_shapes[0][-1]})"
             msg += "\n"
+        if any(shape[1] not in (1, self.output_channels) for shape in self.input_shapes):
+            msg = "Error: input channels not broadcastable in MatMul"
+            msg += "\n"
         if (
             self.size
             != self.input_shapes[1][-1]
diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..b066a6a 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -53,6 +53,8 @@ class MatMulDefault(MatMul):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
+        mustach_hash["left_channels"] = self.input_shapes[0][1]
+        mustach_hash["right_channels"] = self.input_shapes[1][1]
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..9035006 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*(f % {{left_channels}}))]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*(f % {{right_channels}}))];
                 }
             }
         }
-- 
2.43.0


From fc88f5111b75a80954da8b576a9a2593124f3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 11/88] fix: ONNX Concat import with a constant operand

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a58fdbb..0ed3b8d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -333,8 +333,8 @@ def create_concat(
 ) -> Concatenate:
     """Create a Concatenate layer."""
     input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
+    for _, shape in _collect_node_inputs(model, node):
+        input_shapes.append([1] * (4 - len(shape)) + list(shape))
     output_shape = get_shape(node.output[0], model)
     original_len_shape = len(get_shape(node.input[0], model, extend=False))
     size = find_size(output_shape)
-- 
2.43.0


From acbbd5491deeb0029cf8f09d868a6e86f5ffebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 12/88] fix: Softmax along a dimension of size 1 of a
 one-dimensional tensor normalises the whole tensor

---
 src/acetone_nnet/generator/layers/softmax/Softmax.py        | 2 +-
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..bbadc10 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -47,7 +47,7 @@ class Softmax(Layer):
             self.original_name = original_name
         self.axis = axis
 
-        if self.size in output_shape:
+        if self.size in output_shape and (axis is None or output_shape[axis] == self.size):
             self.one_dimension = True
         else:
             self.output_channels = output_shape[1]
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..8d63554 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -95,7 +95,7 @@ def softmax_default_implementation(
 ) -> SoftmaxDefault:
     """Create a Softmax_Default layer using the attributes of old_layer."""
     if old_layer.one_dimension:
-        output_shape = [1, 1, 1, old_layer.size]
+        output_shape = [old_layer.size] * 4
     else:
         output_shape = [1, old_layer.output_channels, old_layer.output_height, old_layer.output_width]
     return SoftmaxDefault(
-- 
2.43.0


From 6c6f58483094d94a31b926b1c13b1aa576f85a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 13/88] fix: pooling with asymmetric padding and SAME padding
 of dilated kernels

The C code swapped top and left padding (and used only left in the
channels_last variant, which also counted the padding in the average), the
Python reference ignored the padding unless all four sides were padded and
then included it.  SAME padding shrank the kernel extent with the dilation.
---
 .../generator/layers/pooling/Pooling2D.py          | 14 +++++---------
 src/acetone_nnet/ir/layer.py                       |  4 ++--
 .../templates/layers/template_Pooling2D.c.tpl      |  4 ++--
 .../templates/layers/template_Pooling2D_HWC.c.tpl  | 13 +++++--------
 4 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..a758bff 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,14 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
+        # The padding takes no part in the maximum or in the average
         for c in range(self.input_channels):
             for i in range(self.output_height):
+                top = i * self.strides - self.pad_top
                 for j in range(self.output_width):
+                    left = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[c, max(top, 0):top + self.pool_size,
+                        max(left, 0):left + self.pool_size])
 
         return output
\ No newline at end of file
diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..a3751c1 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,14 +1,10 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +23,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
@@ -46,7 +42,8 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging, over the part of the window inside the input
+                float inv_area = 1.0f / (float)((kh_end - kh_start) * (kw_end - kw_start));
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     out_ptr[c] *= inv_area;
                 }
-- 
2.43.0


From 22e5529d6a067b6db3c4b3e6aaaca60523f56052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 14/88] fix: reject ONNX windows differing between axes instead
 of ignoring one of them, and Python reference of dilated convolutions

---
 .../generator/layers/convolution/Conv2D.py    |  5 +++--
 .../importers/ONNX_importer/create_layer.py   | 20 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..9e83601 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,6 +267,7 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        rate = self.dilation_rate
         for f in range(self.nb_filters):
             for i in range(self.output_height):
                 for j in range(self.output_width):
@@ -274,8 +275,8 @@ class Conv2D(Layer):
                         self.weights[f, :, :, :]
                         * input_padded[
                             ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            i * self.strides : i * self.strides + self.kernel_h * rate : rate,
+                            j * self.strides : j * self.strides + self.kernel_w * rate : rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 0ed3b8d..4e136bd 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -263,6 +263,23 @@ def create_softmax(
     )
 
 
+def check_window(node: onnx.NodeProto, attributes: dict[str, Any]) -> None:
+    """Reject the sliding windows which layers, having one size for both axes, cannot hold."""
+    names = ["strides", "dilations"]
+    if node.op_type != "Conv":
+        names.append("kernel_shape")
+        if any(dilation != 1 for dilation in attributes["dilations"]):
+            msg = f"Error: dilation in {node.op_type} not supported"
+            raise ValueError(msg)
+    for name in names:
+        if len(set(attributes[name])) != 1:
+            msg = f"Error: {name} differing between axes in {node.op_type} not supported"
+            raise ValueError(msg)
+    if attributes.get("count_include_pad", 0) and attributes["auto_pad"] != "VALID":
+        msg = f"Error: count_include_pad in {node.op_type} not supported"
+        raise ValueError(msg)
+
+
 # Create a layer Conv
 def create_conv(
     node: onnx.NodeProto,
@@ -295,6 +312,7 @@ def create_conv(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_window(node, attributes)
 
     initializers_length = 2
     if len(initializers) == initializers_length:
@@ -1084,6 +1102,7 @@ def create_max_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_window(node, attributes)
     return MaxPooling2D(
         original_name=node.name,
         idx=idx,
@@ -1123,6 +1142,7 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_window(node, attributes)
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From f5f79511d3847f4bc5c63d2d0b8d18749646712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 15/88] fix: ONNX Clip import with scalar, missing or infinite
 bounds

---
 .../generator/activation_functions.py         | 10 ++++---
 .../importers/ONNX_importer/create_layer.py   | 29 ++++++++++++-------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..a7020a1 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -267,18 +267,20 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
+        low = str(self.min) if np.isfinite(self.min) else "-INFINITY"
+        high = str(self.max) if np.isfinite(self.max) else "INFINITY"
         return (
             local_var
             + " > "
-            + str(self.max)
+            + high
             + " ? "
-            + str(self.max)
+            + high
             + " : ("
             + local_var
             + " < "
-            + str(self.min)
+            + low
             + " ? "
-            + str(self.min)
+            + low
             + " : "
             + local_var
             + ")"
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 4e136bd..83c59c7 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1373,6 +1373,21 @@ def create_avg(
     )
 
 
+def get_clip_bounds(node: onnx.NodeProto, model: onnx.ModelProto) -> tuple[float, float]:
+    """Return the bounds of a Clip node, both of which are optional."""
+    # Bounds are attributes up to opset 10, inputs afterwards
+    attributes = extract_attributes(node)
+    bounds = [
+        attributes.get("min", float("-inf")),
+        attributes.get("max", float("inf")),
+    ]
+    for i, name in enumerate(node.input[1:]):
+        if name:
+            bound = look_for_initializer(name, model)
+            bounds[i] = onnx.numpy_helper.to_array(bound).item()
+    return bounds[0], bounds[1]
+
+
 def instantiate_activation_layer(
         node: onnx.NodeProto,
         model: onnx.ModelProto,
@@ -1395,12 +1410,8 @@ def instantiate_activation_layer(
                 attribute["alpha"] = 0.01
             return LeakyReLu(attribute["alpha"])
         case "Clip":
-            mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
-            return Clip(maxi,mini)
+            mini, maxi = get_clip_bounds(node, model)
+            return Clip(maxi, mini)
         case _:
             return None
 
@@ -1567,11 +1578,7 @@ def fuse_clip(
     layers: list,
 ) -> None:
     """Fuse the activation layer Clip with the prior layer."""
-    mini, maxi = float("-inf"), float("inf")
-    if node.input[1]:
-        mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-    if node.input[2]:
-        maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+    mini, maxi = get_clip_bounds(node, model)
     layers[dict_output[node.input[0]]].activation_function = Clip(
         max_value=maxi,
         min_value=mini,
-- 
2.43.0


From 8a0ab623d11aad794cad8cbcd8aa22996e5928e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 16/88] fix: ONNX Resize import by scales, out-of-bounds
 nearest reads, symmetric/align_corners coordinates and one-dimensional inputs

---
 .../generator/layers/resize/Resize.py         | 48 +++++++++----------
 .../resize/resize_cubic/ResizeCubicDefault.py | 28 ++++-------
 .../resize_linear/ResizeLinearDefault.py      | 34 ++++---------
 .../resize/resize_nearest/ResizeNearest.py    |  2 +
 .../resize_nearest/ResizeNearestDefault.py    |  2 +
 .../importers/ONNX_importer/create_layer.py   | 13 ++++-
 .../Resize/template_ResizeNearest.c.tpl       |  2 +
 7 files changed, 59 insertions(+), 70 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..67122c4 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -107,8 +107,9 @@ class Resize(Layer):
         if boolean_resize:
             self.scale = target_size
             self.output_channels = int(self.input_channels * target_size[1])  # should be equal to input_channels
-            self.output_height = int(self.input_height * target_size[2])
-            self.output_width = int(self.input_width * target_size[3])
+            # The scale may be a rounded quotient of the sizes
+            self.output_height = int(self.input_height * target_size[2] + 1e-5)
+            self.output_width = int(self.input_width * target_size[3] + 1e-5)
         else:
             self.output_channels = int(target_size[1])  # should be equal to input_channels
             self.output_height = int(target_size[2])
@@ -242,19 +243,24 @@ class Resize(Layer):
             coord_original: str,
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
-        if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
+        offset = self.half_pixel_symmetric_offset(coord_dim)
+        return f"{coord_original} = {offset} + ({coord_resized} + 0.5)/{self.scale[coord_dim]} - 0.5;"
+
+    def half_pixel_symmetric_offset(
+            self: Self,
+            coordinate_dimension: int,
+    ) -> float:
+        """Compute the offset of the half-pixel-symmetric coordinate transformation."""
+        if coordinate_dimension == 2:
+            output_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            output_length = self.output_width
             input_length = self.input_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        adjustment = output_length / (input_length * self.scale[coordinate_dimension])
+        center = input_length / 2
+        return float(center * (1 - adjustment))
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -262,16 +268,7 @@ class Resize(Layer):
             coordinate_dimension: int,
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
-        if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
-            input_length = self.input_height
-        else:
-            target_length = self.output_width * self.scale[3]
-            input_length = self.input_width
-
-        adjustment = int(target_length) / target_length
-        center = input_length / 2
-        offset = center * (1 - adjustment)
+        offset = self.half_pixel_symmetric_offset(coordinate_dimension)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
 
     def pytorch_half_pixel(
@@ -319,9 +316,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        return (f"{coord_original} = {coord_resized}*({length_original} - 1)"
+                f"/({length_resized} - 1.0);")
 
     def align_corners_implem(
             self: Self,
@@ -336,6 +334,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index cf27bbd..5b35564 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -59,26 +59,14 @@ class ResizeCubicDefault(ResizeCubic):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_dict["2D"]) as template_file:
             template = template_file.read()
         template_file.close()
 
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 748ed76..4739b52 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -61,30 +61,16 @@ class ResizeLinearDefault(ResizeLinear):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
-        if (self.input_height == 1) and (self.input_width > 1):
-            mustach_hash["len_dimension"] = self.input_width - 1
-            mustach_hash["dimension"] = self.input_width
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width == 1):
-            mustach_hash["len_dimension"] = self.input_height - 1
-            mustach_hash["dimension"] = self.input_height
-            mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
-            mustach_hash["len_height"] = self.input_height - 1
-            mustach_hash["len_width"] = self.input_width - 1
-            mustach_hash["input_width"] = self.input_width
-            mustach_hash["input_height"] = self.input_height
-            mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("i", 2, "x")
-            mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
-                self.coordinate_transformation_mode]("j", 3, "y")
-            dimension = "2D"
-
-        with open(self.template_dict[dimension]) as template_file:
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
+        mustach_hash["input_width"] = self.input_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("i", 2, "x")
+        mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
+            self.coordinate_transformation_mode]("j", 3, "y")
+
+        with open(self.template_dict["2D"]) as template_file:
             template = template_file.read()
         template_file.close()
 
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..98f3d87 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -88,5 +88,7 @@ class ResizeNearest(Resize):
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
+                    x0 = np.clip(x0, 0, self.input_height - 1)
+                    y0 = np.clip(y0, 0, self.input_width - 1)
                     output[f, i, j] = input_array[f, x0, y0]
         return output
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..7bab8e4 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -78,6 +78,8 @@ class ResizeNearestDefault(ResizeNearest):
             self.coordinate_transformation_mode]("i", 2, "x")
         mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
             self.coordinate_transformation_mode]("j", 3, "y")
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
         mustach_hash["nearest_mode_x"] = self.nearest_mode_mapping[self.nearest_mode]("x0", "x")
         mustach_hash["nearest_mode_y"] = self.nearest_mode_mapping[self.nearest_mode]("y0", "y")
 
diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 83c59c7..56ac9e8 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -423,7 +423,16 @@ def create_resize(
     attributes = extract_attributes(node)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
 
-    if initializers[2]:
+    for attribute, supported in (
+        ("exclude_outside", 0),
+        ("keep_aspect_ratio_policy", b"stretch"),
+        ("antialias", 0),
+    ):
+        if attributes.get(attribute, supported) not in (supported, "stretch"):
+            msg = f"Error: Resize attribute {attribute}={attributes[attribute]} not implemented"
+            raise ValueError(msg)
+
+    if len(initializers) > 2 and initializers[2]:
         # target size
         targ_size = onnx.numpy_helper.to_array(initializers[2])
         bool_resize = 0
@@ -432,7 +441,7 @@ def create_resize(
         targ_size = onnx.numpy_helper.to_array(initializers[1])
         bool_resize = 1
 
-    roi = onnx.numpy_helper.to_array(initializers[0]) if initializers[0] else []
+    roi = list(onnx.numpy_helper.to_array(initializers[0])) if initializers[0] else []
 
     return create_resize_obj(
         mode=attributes["mode"],
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..d9f36ed 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0<0 ? 0 : (x0>{{len_height}} ? {{len_height}} : x0);
+                y0 = y0<0 ? 0 : (y0>{{len_width}} ? {{len_width}} : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From 9a1c838c0bcd5433ec247ccf82583ad6d1b3f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 17/88] fix: liveness of a tensor used twice by the same node
 frees its buffer twice, making live tensors share storage

---
 src/acetone_nnet/graph/graph_interpretor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..62fd2eb 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -90,7 +90,8 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        # (a tensor may be used several times by the same node)
+        for p in {p.idx: p for p in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -116,7 +117,7 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        for parent in {p.idx: p for p in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 0bbc67d5aafa74ada6401952c9244dc6cf7ee173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 18/88] fix: ONNX Flatten/Reshape/Dropout of a tensor that
 other nodes also use

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 56ac9e8..aa58b29 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1495,7 +1495,7 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From 75bd7b7d4ddb4823c10c6b22a122761bd843936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 19/88] fix: axis of an ONNX Concat whose first operand is a
 constant

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index aa58b29..c9833e9 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -354,7 +354,7 @@ def create_concat(
     for _, shape in _collect_node_inputs(model, node):
         input_shapes.append([1] * (4 - len(shape)) + list(shape))
     output_shape = get_shape(node.output[0], model)
-    original_len_shape = len(get_shape(node.input[0], model, extend=False))
+    original_len_shape = len(get_shape(node.output[0], model, extend=False))
     size = find_size(output_shape)
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
-- 
2.43.0


From 3d040fec55442448df47907ab7b36c431290e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 20/88] fix: activation fused into pooling, softmax, gather,
 tile, transpose, resize or reduce is ignored by the Python reference (and by
 Softmax)

---
 src/acetone_nnet/generator/layers/gather/Gather.py          | 3 ++-
 .../generator/layers/gather_elements/GatherElements.py      | 2 +-
 src/acetone_nnet/generator/layers/pooling/Pooling2D.py      | 2 +-
 .../generator/layers/reduce/reduce_max/ReduceMax.py         | 6 +++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py       | 6 +++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py         | 6 +++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py       | 6 +++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py         | 6 +++---
 .../generator/layers/resize/resize_cubic/ResizeCubic.py     | 2 +-
 .../generator/layers/resize/resize_linear/ResizeLinear.py   | 2 +-
 .../generator/layers/resize/resize_nearest/ResizeNearest.py | 2 +-
 src/acetone_nnet/generator/layers/softmax/Softmax.py        | 2 +-
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 4 +++-
 src/acetone_nnet/generator/layers/tile/Tile.py              | 2 +-
 src/acetone_nnet/generator/layers/transpose/Transpose.py    | 2 +-
 src/acetone_nnet/templates/layers/template_Softmax.c.tpl    | 1 +
 16 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 66c10f9..9c6cfd8 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -137,4 +137,5 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        output = np.take(input_array, indices=self.indices, axis=self.axis - 1)
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index a758bff..8e507dd 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -155,4 +155,4 @@ class Pooling2D(Layer):
                         input_array[c, max(top, 0):top + self.pool_size,
                         max(left, 0):left + self.pool_size])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..2608dea 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,9 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.max(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.max(input_array, axis=self.axes, keepdims=self.keepdims))
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..17bbf06 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,9 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.mean(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.mean(input_array, axis=self.axes, keepdims=self.keepdims))
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..413b0e7 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,6 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.min(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.min(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..05a0a19 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,6 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..d791707 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,6 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.add.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..91ea620 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -99,7 +99,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..9a35a99 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -73,4 +73,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index 98f3d87..39865c2 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -91,4 +91,4 @@ class ResizeNearest(Resize):
                     x0 = np.clip(x0, 0, self.input_height - 1)
                     y0 = np.clip(y0, 0, self.input_width - 1)
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bbadc10..856e68d 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -108,4 +108,4 @@ class Softmax(Layer):
             self.axis = -1
 
         exp = np.exp(input_array, dtype=float)
-        return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
+        return self.activation_function.compute(exp / np.sum(exp, keepdims=True, axis=self.axis))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 8d63554..32838bd 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -80,7 +80,9 @@ class SoftmaxDefault(Softmax):
                 mustach_hash["reduced_position_2"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
                 mustach_hash["softmax_indice"] = f"i + {self.output_height}*f"
 
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->output_{self.path}[j]")
+        position = "j" if self.one_dimension else f"j + {self.output_width}*(i +  {self.output_height}*f)"
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
+            f"ctx->output_{self.path}[{position}]")
 
         with open(self.template_path / "layers" / "template_Softmax.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..56d2812 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,4 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(np.tile(input_array, self.repeats[1:]))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..cee3d6c 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,4 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(np.transpose(input_array, self.perm))
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
index 3715fc7..019067c 100644
--- a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
@@ -29,6 +29,7 @@
             for (j = 0; j < {{output_width}}; ++j)
             {
                 ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = exp(ctx->{{output_str}}[j + {{output_width}}*(i +  {{output_height}}*f)])/ctx->tensor_temp[{{softmax_indice}}];
+                ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = {{{activation_function}}};
             }
         }
     }
-- 
2.43.0


From fa3c2832180016fb0b79c6004e2f5039d5afd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 21/88] fix: pattern matching gives layers wrong indices and
 buffers, and fuses activations into layers that do not apply them

---
 src/acetone_nnet/generator/neural_network.py      |  4 ++++
 src/acetone_nnet/pattern_matching/Pattern.py      | 15 ++++-----------
 .../pattern_matching/PatternMatcher.py            |  2 ++
 .../patterns/FuseActivationLayers.py              |  8 +++++---
 .../patterns/FuseConvBatchNorm.py                 | 11 ++++++-----
 .../pattern_matching/patterns/FuseMatMulAdd.py    |  2 +-
 .../pattern_matching/patterns/FuseSigmoidMul.py   |  2 +-
 7 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..c4269ef 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -46,6 +46,7 @@ else:
 from typing_extensions import Self
 
 from acetone_nnet import templates
+from acetone_nnet.graph.graph_interpretor import tri_topo
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
@@ -158,6 +159,9 @@ class CodeGenerator(ABC):
         
         if self.optimization:
             self.layers, self.log = pattern_matcher.match(self.layers, self.dict_cst)
+            # The fused layers do not live as long as the ones they replace
+            self.layers, self.maxpath, self.dict_cst = tri_topo(self.layers)
+            self.layers = [layer.find_output_str(self.dict_cst) for layer in self.layers]
 
         if self.log:
             logging.info(f"Pattern Matching:\n {self.log}")
diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..c8c4453 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -52,23 +52,16 @@ class Pattern(ABC):
         """Apply the pattern to the layer."""
 
 def update_indices(
-        index: int,
+        ref: int,
         layers: list[Layer],
         shift: int,
         dict_cst: dict[int,int],
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
+    """Shift the indices of the layers after the removed layer of index ref."""
     nb_layers = len(layers)
-    ref = layers[index].idx
-
-    if index >= nb_layers:
-        m = f"Index out of bound ({index} > {nb_layers})"
-        raise ValueError(m)
-    if shift > index:
-        m = f"Shift can't superior to the index ({shift} > {index})"
-        raise ValueError(m)
 
-    for i in range(nb_layers):
+    # In increasing order, as an index of dict_cst must be free before it is used again
+    for i in sorted(range(nb_layers), key=lambda j: layers[j].idx):
         if layers[i].idx > ref:
             cst_index = dict_cst.get(layers[i].idx, None)
             if cst_index is not None:
diff --git a/src/acetone_nnet/pattern_matching/PatternMatcher.py b/src/acetone_nnet/pattern_matching/PatternMatcher.py
index 8012c30..e103b85 100644
--- a/src/acetone_nnet/pattern_matching/PatternMatcher.py
+++ b/src/acetone_nnet/pattern_matching/PatternMatcher.py
@@ -58,6 +58,8 @@ class PatternMatcher:
                         dict_cst=dict_cst,
                     )
                     log += msg
+                    # The layer may have been replaced
+                    break
             i += 1
 
         return temp, log
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..3e3cd1f 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,7 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import ActivationLayer, ConstantLayer, Flatten, InputLayer
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -52,7 +52,7 @@ class FuseActivationLayer(Pattern):
         #Check if the previous layer:
         #   - exists
         #   - is not an activation layer
-        #   - can be fused with an activation function
+        #   - can be fused with an activation function (and applies it)
         #   - only has one child
         if len(layer.previous_layer) != 1:
             return False
@@ -60,6 +60,8 @@ class FuseActivationLayer(Pattern):
             return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
+        if isinstance(layer.previous_layer[0], (InputLayer, ConstantLayer, Flatten)):
+            return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
             return False
         if len(layer.previous_layer[0].next_layer) != 1:
@@ -86,7 +88,7 @@ class FuseActivationLayer(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(activation_layer.idx, layers, 1, dict_cst)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..69bfc5a 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -75,11 +75,12 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        # (copied, as other layers may share them)
+        weights: np.array = conv.weights.copy()
+        biases = conv.biases.copy()
 
         scale = batch_norm.scale
         bias = batch_norm.biases
@@ -104,8 +105,8 @@ class FuseConvBatchNorm(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(batch_norm.idx, layers, 1, dict_cst)
 
-        return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
+        return self.pattern.format(conv.idx, batch_norm.idx, conv.idx), layers.index(conv)
 
 pattern_matcher.register_pattern(FuseConvBatchNorm())
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..6b186e9 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -117,7 +117,7 @@ class MatMulAddToDense(Pattern):
         # Updating the list of layers
         layers[index] = dense
         layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(add.idx, layers, 1, dict_cst)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..17f0334 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -118,7 +118,7 @@ class SigmoidMultiplyToSilu(Pattern):
         # Updating the list of layers
         layers[index] = silu
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(multiply.idx, layers, 1, dict_cst)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 2528fc872213eade13ae1be3cb96ad7777e455ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 22/88] fix: im2row/transposed gemm convolution variants do not
 compile or compute a wrong product, im2col ignores dilation, and weights in a
 layout of their own are not written to parameters.c

---
 .../generator/layers/convolution/Conv2DGemm.py      |  8 ++++----
 .../layers/convolution/Conv2DGemmTarget.py          |  2 ++
 .../generator/layers/convolution/Conv2DStdGemm.py   |  6 ++++++
 src/acetone_nnet/generator/neural_network.py        |  9 +++++++--
 .../layers/Conv/template_Conv_gemm_nt.c.tpl         |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl         | 13 +++++++------
 .../layers/Conv/template_Conv_gemm_tt.c.tpl         |  4 ++--
 .../templates/layers/Conv/template_im2col.c.tpl     |  4 ++--
 .../templates/layers/Conv/template_im2row.c.tpl     |  6 +++---
 9 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 892a83d..5c156f1 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -99,7 +99,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
@@ -132,7 +132,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
         mustach_hash["ldB"] = n
         mustach_hash["C"] = c
@@ -167,9 +167,9 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 00cd4f7..3857cbb 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -49,6 +49,7 @@ class Conv2DGemmTarget(Conv2DGemm):
 
         mustach_hash["direct"] = direct
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["name"] = self.name
         mustach_hash["idx"] = f"{self.idx:02d}"
         mustach_hash["m"] = m
@@ -86,6 +87,7 @@ class Conv2DGemmTarget(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..7fe7ff2 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -35,6 +35,10 @@ class Conv2DStdGemm(Conv2DGemm):
         """Build a Convolution layer with direct gemm implementation."""
         super().__init__(**kwargs)
 
+        if self.conv_algorithm in ("gemm_tn", "gemm_tt"):
+            # The transposed kernel matrix is the one these algorithms read
+            self.layout = self.weights.reshape(self.nb_filters, self.patches_height).T.copy("C")
+
         self.algo_patch_building_mapping = {"gemm_nn": self.write_im2col,
                                             "gemm_nt": self.write_im2row,
                                             "gemm_tn": self.write_im2col,
@@ -54,6 +58,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +87,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index c4269ef..0678f4e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1030,6 +1030,8 @@ class CodeGenerator(ABC):
 
             if hasattr(layer, "weights"):
                 layer_hash["nb_weights"] = layer.nb_weights
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    layer_hash["nb_weights"] = layout.size
                 self.nb_weights_max = max(layer.nb_weights, self.nb_weights_max)
                 to_print = True
 
@@ -1178,8 +1180,11 @@ class CodeGenerator(ABC):
             layer_hash = {"name": layer.name, "idx": f"{layer.idx:02d}"}
 
             if (w := getattr(layer, "weights", None)) is not None:
-                layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                # Some implementations read the weights in a layout of their own
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    w = layout
+                layer_hash["nb_weights"] = w.size
+                layer_hash["weights"] = self.flatten_array_order_c(w)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 3881f78..e07dcf8 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -6,7 +6,7 @@
             register float output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 9d139f2..4ecd96c 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -6,12 +6,13 @@
             float register weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}({{B}}[p*{{ldB}}+j]);
-            }
-            for(j = 0; j < {{n}}; ++j){
-                register float output = ctx->tensor_temp[i*{{ldC}} + j];
-                output += biases_{{name}}_{{idx}}[i];
-                ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}}+j]);
             }
         }
+        for(j = 0; j < {{n}}; ++j)
+        {
+            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            output += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+        }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index f8fc0c8..e1a9a56 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -6,9 +6,9 @@
             float register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             sum += biases_{{name}}_{{idx}}[i];
-            tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..8ff48f5 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -9,8 +9,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
 
                 int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..769ec86 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -8,9 +8,9 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
-                int j = w*{{output_height}} + h;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
+                int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
                 else
-- 
2.43.0


From bb10ab586e600fbddbc0535f5490d3039381fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 23/88] fix: winograd convolution of an image with an odd
 height leaves its last row unset, and forms out-of-bounds pointers in the
 padding

---
 .../layers/convolution/Conv2Ddirect_block.py      | 15 ++++++++++++---
 .../layers/Conv/template_Conv3x3_winograd.c.tpl   |  3 +--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..5f5abae 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -31,11 +31,20 @@ import numpy as np
 class Conv2Ddirect_block(Conv2D):
     """Implements Conv2D using the six-loops algorithm (direct conv) with blocking of channels."""
 
+    def is_winograd(self: Self) -> bool:
+        """Tell whether the winograd F(2x2, 3x3) algorithm, made of whole output tiles, applies."""
+        return (
+            self.kernel_h == 3
+            and self.kernel_w == 3
+            and self.strides == 1
+            and self.output_height % 2 == 0
+            and self.output_width % 2 == 0
+        )
+
     def transform_to_6d_blocked_layout(self):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -49,7 +58,7 @@ class Conv2Ddirect_block(Conv2D):
             layout = layout.reshape(nb_k, self.block_k, C) #no bloc_c for 1x1 conv
             return layout.transpose(0, 2, 1).copy("C")
         #case winograd 3x3 stride 1
-        elif layout.shape[2]==3 and layout.shape[3]==3 and self.strides==1 and even_image:
+        elif self.is_winograd():
             w_orig = layout
             G = np.array([[1.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.0, 0.0, 1.0]],dtype=np.float32)
             w_win = np.einsum('ij,okjl,ml->okim',G,layout,G,optimize=True)
@@ -110,7 +119,7 @@ class Conv2Ddirect_block(Conv2D):
         elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.is_winograd():
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 151c83f..9ff5dcb 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -18,13 +18,12 @@
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
                     int ih = oh + r - {{PAD}};
-                    const float* row_ptr = &ctx->{{output_str}}[ih * {{W_in}} * {{C}} + ic];
                     int valid_h = (ih >= 0 && ih < {{H_in}});
                     
                     for(int c = 0; c < 4; ++c) {
                         int iw = ow + c - {{PAD}};
                         int valid_w = (iw >= 0 && iw < {{W_in}});
-                        d[r][c] = (valid_h & valid_w) ? row_ptr[iw * {{C}}] : 0.0f;
+                        d[r][c] = (valid_h & valid_w) ? ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{C}} + ic] : 0.0f;
                     }
                 }
 
-- 
2.43.0


From 7c58c3fcd5f275226a77eba745c39152f04ae01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 24/88] fix: data layout of the output of a model ending with
 an activation layer

---
 src/acetone_nnet/generator/neural_network.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 0678f4e..2233b0a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -54,6 +54,7 @@ from acetone_nnet.quantize.activation import QuantizeShiftActivation
 from acetone_nnet.templates.template_makefile import TemplateMakefile
 from acetone_nnet.versioning.versioning import versioning
 from .layers import (
+    ActivationLayer,
     InputLayer,
     AveragePooling2D,
     BatchNormalization,
@@ -429,6 +430,13 @@ class CodeGenerator(ABC):
                 test_dataset.append(list(map(dtype, contents)))
         return np.array(test_dataset)
 
+    def _output_image_layer(self: Self) -> Any:
+        """Return the layer giving the model's output its shape (an activation keeps its input's)."""
+        layer = self.layers[-1]
+        while isinstance(layer, ActivationLayer) and layer.previous_layer:
+            layer = layer.previous_layer[0]
+        return layer
+
     def get_input_shape(self: Self) -> list[int]:
         """Return the input shape of the model."""
         return self.layers[0].input_shape
@@ -576,7 +584,7 @@ class CodeGenerator(ABC):
 
                 # Write results in text files to compare prediction.
                 if (self.data_format == "channels_last") and hasattr(
-                    layer,
+                    self._output_image_layer(),
                     "output_channels",
                 ):
                     nn_output = np.transpose(nn_output, (1, 2, 0))
@@ -933,10 +941,11 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        if hasattr(self.layers[-1], "output_channels"):
-            output_hash["output_height"] = self.layers[-1].output_height
-            output_hash["output_width"] = self.layers[-1].output_width
-            output_hash["output_channels"] = self.layers[-1].output_channels
+        image_layer = self._output_image_layer()
+        if hasattr(image_layer, "output_channels"):
+            output_hash["output_height"] = image_layer.output_height
+            output_hash["output_width"] = image_layer.output_width
+            output_hash["output_channels"] = image_layer.output_channels
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
-- 
2.43.0


From 6588be07e50d149c16357def2c84d2d155f369b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 25/88] fix: binary parameter storage of broadcast constants,
 of models without parameters and of parameters of another data type

---
 src/acetone_nnet/generator/neural_network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 2233b0a..1f575a9 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1162,6 +1162,9 @@ class CodeGenerator(ABC):
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
                 symtab[f"scale_{layer.name}_{layer.idx:02d}"] = layer.scale
 
+            if isinstance(layer, Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
@@ -1171,7 +1174,10 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                np.asarray(symtab[s], dtype=self.data_type_py).tofile(parameters_bin)
+            if not symtab:
+                # objcopy refuses an empty file
+                parameters_bin.write("\0")
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 7ccb7fb84f9c564671d462b18ee563c2d7dd7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 26/88] fix: activation fused into a channels-last pooling
 layer is applied to an undeclared variable

---
 .../layers/pooling/average_pooling/AveragePooling2DDefault.py   | 2 +-
 .../generator/layers/pooling/max_pooling/MaxPooling2DDefault.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
-- 
2.43.0


From 30f8e64496100f818333b7e1931ef784084abdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 27/88] fix: decimal outputs are written with too few digits to
 read the values back

---
 src/acetone_nnet/generator/neural_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 1f575a9..8e3af66 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -709,7 +709,9 @@ class CodeGenerator(ABC):
                         "format": (
                             "%d"
                             if np.issubdtype(self.data_type_py, np.integer)
-                            else "%a" if self.to_hex else "%9g"
+                            else "%a" if self.to_hex
+                            # as many digits as reading back the same value needs
+                            else "%.9g" if self.data_type_py == np.float32 else "%.17g"
                         ),
                     },
                 ),
-- 
2.43.0


From aad84ac53a07376e222257971da205288b36f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 28/88] fix: layers of double-precision models compute in
 single precision or access doubles through float pointers

---
 .../generator/activation_functions.py         |  4 ++--
 .../layers/Conv/template_Conv1x1_block.c.tpl  |  8 +++----
 .../Conv/template_Conv3x3_winograd.c.tpl      | 24 +++++++++----------
 .../layers/Conv/template_Conv_DW_HWC.c.tpl    |  8 +++----
 .../Conv/template_Conv_direct_block.c.tpl     |  8 +++----
 .../layers/Conv/template_Conv_gemm_nn.c.tpl   |  4 ++--
 .../layers/Conv/template_Conv_gemm_nt.c.tpl   |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl   |  4 ++--
 .../layers/Conv/template_Conv_gemm_tt.c.tpl   |  2 +-
 .../layers/Gemm/template_gemm_nn.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_nt.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_tn.c.tpl        |  2 +-
 .../layers/Gemm/template_gemm_tt.c.tpl        |  2 +-
 .../Resize/template_ResizeCubic2D.c.tpl       |  8 +++----
 .../templates/layers/template_Dot.c.tpl       |  2 +-
 .../layers/template_Pooling2D_HWC.c.tpl       |  8 +++----
 .../templates/template_header_file.c.tpl      |  3 +++
 .../templates/template_source_file.c.tpl      | 24 +++++++++----------
 .../templates/template_train_hook_file.c.tpl  |  2 +-
 19 files changed, 61 insertions(+), 58 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index a7020a1..7c9ae40 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -95,7 +95,7 @@ class Sigmoid(ActivationFunctions):
 
     def write_activation_str(self: Self, local_var: str) -> str:
         """Generate the string to print."""
-        return f"({local_var} < 0) ? (expf({local_var}) / (1. + expf({local_var}))) : (1. / (1. + expf(-{local_var})))"
+        return f"({local_var} < 0) ? (exp({local_var}) / (1. + exp({local_var}))) : (1. / (1. + exp(-{local_var})))"
 
 class Silu(ActivationFunctions):
     """Silu layer."""
@@ -182,7 +182,7 @@ class TanH(ActivationFunctions):
 
     def write_activation_str(self: Self, local_var: str) -> str:
         """Generate the string to print."""
-        return f"({local_var} < 0.) ? (expf(2.*{local_var}) - 1.) / (expf(2.*{local_var}) + 1.) : (1. - expf(-2.*{local_var})) / (1. + expf(-2.*{local_var}))"
+        return f"({local_var} < 0.) ? (exp(2.*{local_var}) - 1.) / (exp(2.*{local_var}) + 1.) : (1. - exp(-2.*{local_var})) / (1. + exp(-2.*{local_var}))"
 
 class Linear(ActivationFunctions):
     """Linear layer."""
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
index 853061e..244d4d0 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv1x1_block.c.tpl
@@ -5,8 +5,8 @@
      */
     for (int oh = 0; oh < {{H_in}} / {{STRIDE}}; ++oh) {
         for (int ow = 0; ow < {{W_in}} / {{STRIDE}}; ++ow) {            
-            const float* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
-            float* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
+            const nn_data_t* restrict pixel_in = &ctx->{{output_str}}[(oh * {{STRIDE}} * {{W_in}} + ow * {{STRIDE}}) * {{C}}];
+            nn_data_t* restrict o_ptr = &ctx->tensor_temp[(oh * ({{W_in}} / {{STRIDE}}) + ow) * {{K}}];
 
             for (int ok_b = 0; ok_b < {{K}}; ok_b += {{BLOCK_K}}) {
                 
@@ -14,9 +14,9 @@
                     o_ptr[ok_b+k] = biases_{{name}}_{{idx}}[ok_b + k];
 
                 for (int ic = 0; ic < {{C}}; ++ic) {
-                    float val_in = pixel_in[ic];
+                    nn_data_t val_in = pixel_in[ic];
                     // Weights layout: [NB_BK][C][BK] = [{{NB_BLOCK_K}}][{{C}}][{{BLOCK_K}}]
-                    const float* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
+                    const nn_data_t* restrict w_ptr = &weights_{{name}}_{{idx}}[(ok_b / {{BLOCK_K}}) * {{C}} * {{BLOCK_K}} + (ic * {{BLOCK_K}})];
                     #pragma omp simd
                     for (int k = 0; k < {{BLOCK_K}}; ++k)
                         o_ptr[ok_b+k] += val_in * w_ptr[k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
index 9ff5dcb..28909f2 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv3x3_winograd.c.tpl
@@ -10,10 +10,10 @@
         for (int oh = 0; oh < ({{H_out}} / 2) * 2; oh += 2){
         for (int ow = 0; ow < ({{W_out}} / 2) * 2; ow += 2){
             /* Accumulateurs pour les 16 points du domaine Winograd sur BK canaux */
-            float acc[4][4][{{BLOCK_K}}] = {0};
+            nn_data_t acc[4][4][{{BLOCK_K}}] = {0};
 
             for (int ic = 0; ic < {{C}}; ic++) {
-                float d[4][4];
+                nn_data_t d[4][4];
                 
                 /* Chargement du bloc 4x4 d'entrée avec gestion du padding sans IF */
                 for(int r = 0; r < 4; ++r) {
@@ -28,7 +28,7 @@
                 }
 
                 /* 1. Transformation de l'entrée (Data Transform BT * d * B) */
-                float temp[4][4];
+                nn_data_t temp[4][4];
                 for(int i = 0; i < 4; i++) {
                     temp[0][i] = d[0][i] - d[2][i];
                     temp[1][i] = d[1][i] + d[2][i];
@@ -39,25 +39,25 @@
                 /* 2. Transformation horizontale + Multiplication + Accumulation */
                 for(int i = 0; i < 4; i++) {
                     {
-                        const float* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w0 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 0)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][0][k] += (temp[i][0] - temp[i][2]) * w0[k];
                     }
                     {
-                        const float* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w1 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 1)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][1][k] += (temp[i][1] + temp[i][2]) * w1[k];
                     }
                     {
-                        const float* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w2 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 2)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][2][k] += (temp[i][2] - temp[i][1]) * w2[k];
                     }
                     {
-                        const float* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
+                        const nn_data_t* __restrict w3 = &weights_{{name}}_{{idx}}[((((k_base/{{BLOCK_K}})*4 + i)*4 + 3)*{{C}} + ic)*{{BLOCK_K}}];
                         for(int k = 0; k < {{BLOCK_K}}; k++) acc[i][3][k] += (temp[i][1] - temp[i][3]) * w3[k];
                     }
                 }
             }
 
-            float m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
+            nn_data_t m_temp[2][4][{{BLOCK_K}}] __attribute__((aligned(64)));
             /* 3. Transformation de sortie (AT * M * A) + Biais + Activation */
             for (int k = 0; k < {{BLOCK_K}}; k++) {
                 m_temp[0][0][k] = acc[0][0][k] + acc[1][0][k] + acc[2][0][k];
@@ -71,22 +71,22 @@
 
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                nn_data_t *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][0][k] + m_temp[0][1][k] + m_temp[0][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                nn_data_t *restrict o_ptr = &ctx->tensor_temp[((oh + 0) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[0][1][k] - m_temp[0][2][k] - m_temp[0][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
+                nn_data_t *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 0)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][0][k] + m_temp[1][1][k] + m_temp[1][2][k] + biases_{{name}}_{{idx}}[k_base + k];
             }
             {    
-                float *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
+                nn_data_t *restrict o_ptr = &ctx->tensor_temp[((oh + 1) * {{W_out}} + (ow + 1)) * {{K}} + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; k++)
                     o_ptr[k] = m_temp[1][1][k] - m_temp[1][2][k] - m_temp[1][3][k] + biases_{{name}}_{{idx}}[k_base + k];
             }        
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
index 8e155e6..5199692 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_DW_HWC.c.tpl
@@ -12,10 +12,10 @@
 
         for (int ow = 0; ow < {{W_out}}; ++ow) {
             // Accès direct avec restrict pour l'écriture
-            float * restrict out_ptr = (float * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
+            nn_data_t * restrict out_ptr = (nn_data_t * restrict)&ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}})];
             #pragma omp simd
             for (int k = 0; k < {{K}}; ++k) {
-                out_ptr[k] = ((const float * restrict)biases_{{name}}_{{idx}})[k];
+                out_ptr[k] = ((const nn_data_t * restrict)biases_{{name}}_{{idx}})[k];
             }
 
             const int w_start_idx = ow * {{STRIDE}} - {{PAD}};
@@ -26,8 +26,8 @@
                 const int ih = h_start_idx + kh;
                 for (int kw = kw_start; kw < kw_end; ++kw) {
                     const int iw = w_start_idx + kw;
-                    const float * restrict in_ptr = (const float * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
-                    const float * restrict w_ptr  = (const float * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
+                    const nn_data_t * restrict in_ptr = (const nn_data_t * restrict)&ctx->{{output_str}}[(ih * {{W_in}} * {{K}}) + (iw * {{K}})];
+                    const nn_data_t * restrict w_ptr  = (const nn_data_t * restrict)&weights_{{name}}_{{idx}}[(kh * {{KW}} * {{K}}) + (kw * {{K}})];
 
                     #pragma omp simd
                     for (int k = 0; k < {{K}}; ++k) {
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
index 6994e7c..3726c8f 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl
@@ -14,7 +14,7 @@
                 const int kw_s = ({{PAD}} - ow * {{STRIDE}} > 0) ? ({{PAD}} - ow * {{STRIDE}}) : 0;
                 const int kw_e = ({{KW}} < ({{W_in}} + {{PAD}} - ow * {{STRIDE}})) ? {{KW}} : ({{W_in}} + {{PAD}} - ow * {{STRIDE}});
                 
-                float* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
+                nn_data_t* restrict o_ptr = &ctx->tensor_temp[(oh * {{W_out}} * {{K}}) + (ow * {{K}}) + k_base];
                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                     o_ptr[k] = biases_{{name}}_{{idx}}[k_base + k];
 
@@ -24,10 +24,10 @@
                         const int ih = oh * {{STRIDE}} - {{PAD}} + kh;
                         for (int kw = kw_s; kw < kw_e; ++kw) {
                             const int iw = ow * {{STRIDE}} - {{PAD}} + kw;
-                            const float* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
-                            const float* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
+                            const nn_data_t* restrict i_ptr = &ctx->{{output_str}}[(ih * {{W_in}} + iw) * {{BLOCK_C}}*{{NB_BLOCK_C}} + c_base];
+                            const nn_data_t* restrict w_ptr_base = &weights_{{name}}_{{idx}}[((((bk * {{NB_BLOCK_C}} + bc) * {{KH}} + kh) * {{KW}} + kw) * {{BLOCK_C}} * {{BLOCK_K}})];
                             for (int c = 0; c < {{BLOCK_C}}; ++c) {
-                                float iv = i_ptr[c];
+                                nn_data_t iv = i_ptr[c];
                                 #pragma omp simd
                                 for (int k = 0; k < {{BLOCK_K}}; ++k) 
                                     o_ptr[k] += iv * w_ptr_base[c * {{BLOCK_K}} + k];
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
index 14077ca..198b5c3 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nn.c.tpl
@@ -3,7 +3,7 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            register float weight = {{A}}[i*{{ldA}}+p];
+            register nn_data_t weight = {{A}}[i*{{ldA}}+p];
             for(j = 0; j < {{n}}; ++j)
             {
                 ctx->tensor_temp[i*{{ldC}} + j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}} + j]);
@@ -11,7 +11,7 @@
         }
         for(j = 0; j < {{n}}; ++j)
         {
-            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            register nn_data_t output = ctx->tensor_temp[i*{{ldC}} + j];
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index e07dcf8..3b469a0 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output =0;
+            register nn_data_t output =0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 4ecd96c..915dfa8 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -3,7 +3,7 @@
     {
         for (p = 0; p < {{k}}; ++p)
         {
-            float register weight = {{A}}[p*{{ldA}}+i];
+            register nn_data_t weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
                 ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}}+j]);
@@ -11,7 +11,7 @@
         }
         for(j = 0; j < {{n}}; ++j)
         {
-            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            register nn_data_t output = ctx->tensor_temp[i*{{ldC}} + j];
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
         }
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index e1a9a56..0082064 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            register nn_data_t sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 2186fe0..4104d0e 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -3,7 +3,7 @@
     {
         for(j = 0; j< {{n}}; ++j)
         {
-            register float output = 0;
+            register nn_data_t output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index 91d9da8..23700f9 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            register float output = 0;
+            register nn_data_t output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index ae27567..e0be66d 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -3,7 +3,7 @@
     {
         for(j = 0; j < {{n}}; ++j)
         {
-            float register output = 0;
+            register nn_data_t output = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 186f4e8..b46f30f 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -3,7 +3,7 @@
     {
         for (j = 0; j < {{n}}; ++j)
         {
-            float register sum = 0;
+            register nn_data_t sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
                 sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
index 41542cf..d0301aa 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
@@ -18,7 +18,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register nn_data_t b_1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0 < 0 ? 0 : y0 >= {{input_width}} ? {{input_width}} - 1 : y0;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -26,7 +26,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register nn_data_t b0 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0+1 < 0 ? 0 : y0+1 >= {{input_width}} ? {{input_width}} - 1 : y0+1;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -34,7 +34,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register nn_data_t b1 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 col_index = y0+2 < 0 ? 0 : y0+2 >= {{input_width}} ? {{input_width}} - 1 : y0+2;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
@@ -42,7 +42,7 @@
                 f1 = x0+1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+1 + {{input_height}}*f)];
                 f2 = x0+2 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0+2 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0+2 + {{input_height}}*f)];
                 s = x - x0;
-                float register b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
+                register nn_data_t b2 = f_1*a*s*(1 + s*(s - 2)) + f0*(s*s*(a*(s - 1) + 2*s - 3) + 1) + f1*s*(s*(-s*(2 + a) + 2*a + 3) - a) + f2*a*s*s*(1 - s);
 
                 s = y - y0;
 
diff --git a/src/acetone_nnet/templates/layers/template_Dot.c.tpl b/src/acetone_nnet/templates/layers/template_Dot.c.tpl
index 77fda1e..2b1be2d 100644
--- a/src/acetone_nnet/templates/layers/template_Dot.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Dot.c.tpl
@@ -7,7 +7,7 @@
             {
                 for (j = 0; j < {{output_width}}; ++j)
                 {
-                    register float output = 0;
+                    register nn_data_t output = 0;
                     for (k = 0; k < {{axis_dim}}; ++k)
                     {
                         output += {{output_str_left}}[{{indice_left}}] * {{output_str_right}}[{{indice_right}}];
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index a3751c1..ba3d3e7 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -13,12 +13,12 @@
                 
                 int temp_w_end = {{input_width}} + {{pad_left}} - ow * {{strides}};
                 int kw_end = ({{pool_size}} < temp_w_end) ? {{pool_size}} : temp_w_end;
-                float* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
+                nn_data_t* out_ptr = &ctx->tensor_temp[(oh * {{output_width}} + ow) * {{input_channels}}];
 
                 // Initialize channel accumulators
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     {{#is_maxpool}}out_ptr[c] = -INFINITY;{{/is_maxpool}}
-                    {{#is_avgpool}}out_ptr[c] = 0.0f;{{/is_avgpool}}
+                    {{#is_avgpool}}out_ptr[c] = 0;{{/is_avgpool}}
                 }
 
                 // Spatial window loops
@@ -27,7 +27,7 @@
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
-                        const float* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
+                        const nn_data_t* in_ptr = &ctx->{{output_str}}[(ih * {{input_width}} + iw) * {{input_channels}}];
 
                         // Innermost Channel Loop 
                         for (int c = 0; c < {{input_channels}}; ++c) {
@@ -43,7 +43,7 @@
 
                 {{#is_avgpool}}
                 // Averaging, over the part of the window inside the input
-                float inv_area = 1.0f / (float)((kh_end - kh_start) * (kw_end - kw_start));
+                nn_data_t inv_area = (nn_data_t)1 / ((kh_end - kh_start) * (kw_end - kw_start));
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     out_ptr[c] *= inv_area;
                 }
diff --git a/src/acetone_nnet/templates/template_header_file.c.tpl b/src/acetone_nnet/templates/template_header_file.c.tpl
index a551a42..62749e9 100644
--- a/src/acetone_nnet/templates/template_header_file.c.tpl
+++ b/src/acetone_nnet/templates/template_header_file.c.tpl
@@ -1,6 +1,9 @@
 #ifndef INFERENCE_H_ 
 #define INFERENCE_H_ 
 
+/* Type of the tensors and parameters */
+typedef {{data_type}} nn_data_t;
+
 typedef struct inference_t{
 {{#path}}
 // output list for path {{.}}
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..d6e6a15 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -52,27 +52,27 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     int count;
 {{/is_count}}
 {{#is_resize}}
-    float x;
-    float y;
+    {{data_type}} x;
+    {{data_type}} y;
     int x0;
     int y0;
 {{/is_resize}}
 {{#is_cubic_interpolation}}
     int col_index;
-    float a;
-    float f_1;
-    float f0;
-    float f1;
-    float f2;
-    float s;
+    {{data_type}} a;
+    {{data_type}} f_1;
+    {{data_type}} f0;
+    {{data_type}} f1;
+    {{data_type}} f2;
+    {{data_type}} s;
 {{/is_cubic_interpolation}}
 {{#is_linear_interpolation}}
     int y1;
     int x1;
-    float f11;
-    float f12;
-    float f21;
-    float f22;
+    {{data_type}} f11;
+    {{data_type}} f12;
+    {{data_type}} f21;
+    {{data_type}} f22;
 {{/is_linear_interpolation}}
 {{#is_gather}}
     int position;
diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..22c8202 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From a3e088821bd39ccc1b84a0d0ef4cd5769cac8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 29/88] fix: ONNX inputs, outputs and nodes other than one
 input-to-output graph are silently misread

Initializers listed as graph inputs became input layers, additional inputs and
outputs were ignored, and nodes the output does not depend on could run last
and take its place.
---
 .../importers/ONNX_importer/parser_ONNX.py    | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..c20a507 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -24,6 +24,7 @@ from pathlib import Path
 import numpy as np
 import onnx
 
+from acetone_nnet.generator.layers import InputLayer
 from acetone_nnet.graph.graph_interpretor import tri_topo
 from acetone_nnet.importers.ONNX_importer.create_layer import (
     activation_layers,
@@ -60,6 +61,23 @@ def find_data_type(
     return data_type, data_type_py
 
 
+def remove_dead_layers(layers: list[Layer], output: Layer) -> list[Layer]:
+    """Keep the layers the output depends on."""
+    live: dict[int, Layer] = {}
+    pending = [output]
+    while pending:
+        layer = pending.pop()
+        if layer.idx not in live:
+            live[layer.idx] = layer
+            pending.extend(layer.previous_layer)
+    if not any(isinstance(layer, InputLayer) for layer in live.values()):
+        msg = "Error: the output of the model does not depend on its input\n"
+        raise ValueError(msg)
+    for layer in live.values():
+        layer.next_layer = [succ for succ in layer.next_layer if succ.idx in live]
+    return [layer for layer in layers if layer.idx in live]
+
+
 def load_onnx(
     file_to_parse: Path | str | onnx.ModelProto
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -85,13 +103,21 @@ def load_onnx(
     # Indices of the layer
     idx = 0
 
+    # Create constant for all initializers
+    init_dict = {i.name:i for i in model.graph.initializer}
+
     # Creating and adding all the input layers to the list
-    for i in model.graph.input:
+    # (an initializer may be listed as an input too, for its value to be overridable)
+    inputs = [i for i in model.graph.input if i.name not in init_dict]
+    for i in inputs:
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
-    # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
+    # The generated code reads one input tensor and writes one output tensor
+    if len(inputs) != 1 or len(model.graph.output) != 1:
+        msg = "Error: models with several inputs or outputs are not supported\n"
+        raise ValueError(msg)
+
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
@@ -144,8 +170,11 @@ def load_onnx(
             layer.previous_layer.append(parent)
             parent.next_layer.append(layer)
 
+    # Removing the layers which do not contribute to the output
+    layers = remove_dead_layers(layers, layers[dict_output[model.graph.output[0].name]])
+
     data_type = onnx.helper.tensor_dtype_to_np_dtype(
-        model.graph.input[0].type.tensor_type.elem_type,
+        inputs[0].type.tensor_type.elem_type,
     )
 
     data_type, data_type_py = find_data_type(str(data_type))
-- 
2.43.0


From 2ff84799801705760de71610c000dd6229b534c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 30/88] fix: Constant nodes lose their shape or value, and
 importing a model adds initializers to it

---
 .../importers/ONNX_importer/create_layer.py        | 14 ++++++++++++--
 .../importers/ONNX_importer/parser_ONNX.py         |  7 +++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index c9833e9..225435d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1504,10 +1504,20 @@ def create_initializer(
     model: onnx.ModelProto,
 ) -> None:
     """Change a constant layer into an initializer."""
+    attributes = extract_attributes(node)
     const = model.graph.initializer.add()
+    if "value" in attributes:
+        const.CopyFrom(attributes["value"])
+    elif "value_float" in attributes or "value_floats" in attributes:
+        value = attributes.get("value_float", attributes.get("value_floats"))
+        const.CopyFrom(onnx.numpy_helper.from_array(np.array(value, np.float32)))
+    elif "value_int" in attributes or "value_ints" in attributes:
+        value = attributes.get("value_int", attributes.get("value_ints"))
+        const.CopyFrom(onnx.numpy_helper.from_array(np.array(value, np.int64)))
+    else:
+        msg = f"Error: Constant attributes {list(attributes)} not supported"
+        raise ValueError(msg)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index c20a507..6336671 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -91,6 +91,10 @@ def load_onnx(
 
     if not model.graph.value_info:
         model = onnx.shape_inference.infer_shapes(model)
+    elif model is file_to_parse:
+        # The model of the caller is not to be modified
+        model = onnx.ModelProto()
+        model.CopyFrom(file_to_parse)
 
     # The list of layers
     layers: list[Layer] = []
@@ -150,6 +154,9 @@ def load_onnx(
         else:
             raise TypeError("Error: layer " + node.op_type + " not supported\n")
 
+    # Constant nodes have become initializers
+    init_dict = {i.name:i for i in model.graph.initializer}
+
     # Attach layers to their inputs and outputs
     for layer_idx, layer_inputs in dict_input.items():
         # The indices of a layer is the same as it's position in the list
-- 
2.43.0


From 51e233a2cf1565a54f4b68236636a118e779a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 31/88] fix: LRN, training-mode batch normalisation and
 custom-domain operators are silently misread

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 4 +++-
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py  | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 225435d..e69b7ea 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -735,6 +735,9 @@ def create_batch_norm(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    if attributes.get("training_mode", 0) or any(node.output[1:]):
+        msg = "Error: BatchNormalization in training mode not supported"
+        raise ValueError(msg)
 
     if "epsilon" not in attributes:
         attributes["epsilon"] = 1e-05
@@ -1526,7 +1529,6 @@ unused_layers = {
     "Constant": create_initializer,
     "Unsqueeze": bypass,
     "Reshape": bypass,
-    "LRN": bypass,
     "Shape": bypass,
     "Flatten": bypass,
 }
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 6336671..fbd12be 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -134,6 +134,10 @@ def load_onnx(
 
     # Going through all the nodes to create the layers and add them to the list
     for node in model.graph.node:
+        if node.domain not in ("", "ai.onnx"):
+            raise TypeError(
+                f"Error: layer {node.domain}.{node.op_type} not supported\n",
+            )
         if node.op_type in layer_type:
             # If the node is a useful layer, we add it to the list
             layers.append(
-- 
2.43.0


From a7c4a97ce398a5ab90bcc31df427eea832a167f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 32/88] fix: Softmax before opset 13 and models importing
 several operator sets are misread

---
 .../importers/ONNX_importer/create_layer.py   | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e69b7ea..2462101 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -135,6 +135,14 @@ def extract_attributes(node: onnx.NodeProto) -> dict[str, Any]:
     return attributes
 
 
+def get_opset(model: onnx.ModelProto) -> int:
+    """Return the version of the ONNX operators, which other operator sets may come before."""
+    for opset in model.opset_import:
+        if opset.domain in ("", "ai.onnx"):
+            return opset.version
+    return 1
+
+
 # Find the shape of shape_name in model (an onnx model)
 # Depend on the characteristics of the model. Need value_info in the model
 def get_shape(
@@ -244,15 +252,18 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 1
-        else:
-            attributes["axis"] = len(output_shape) - 1
-    elif attributes["axis"] < 0:
-        attributes["axis"] = len(output_shape) + attributes["axis"]
-    else:
-        attributes["axis"] = 4 + attributes["axis"] - len(input_shape)
+    coerced = get_opset(model) < onnx_version_change_implementation
+    axis = attributes.get("axis", 1 if coerced else -1)
+    if axis < 0:
+        axis += len(input_shape)
+    if coerced:
+        # The tensor is seen as a matrix, whose rows run over the axes from this one on
+        wide = [i for i in range(axis, len(input_shape)) if input_shape[i] != 1]
+        if len(wide) > 1:
+            msg = "Error: Softmax over several axes (before opset 13) not supported"
+            raise ValueError(msg)
+        axis = wide[0] if wide else axis
+    attributes["axis"] = len(output_shape) + axis - len(input_shape)
 
     return Softmax(
         original_name=node.name,
@@ -832,7 +843,7 @@ def create_reduce_sum(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -886,7 +897,7 @@ def create_reduce_max(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -940,7 +951,7 @@ def create_reduce_min(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -994,7 +1005,7 @@ def create_reduce_mean(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
@@ -1048,7 +1059,7 @@ def create_reduce_prod(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if model.opset_import[0].version < onnx_version_change_implementation:
+    if get_opset(model) < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-- 
2.43.0


From 1ad70d0fd8d1e451381d7d0d94fa006e05528677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 33/88] fix: Resize attributes without an implementation are
 ignored

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 2462101..60c71f1 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -442,6 +442,15 @@ def create_resize(
         if attributes.get(attribute, supported) not in (supported, "stretch"):
             msg = f"Error: Resize attribute {attribute}={attributes[attribute]} not implemented"
             raise ValueError(msg)
+    if attributes["coordinate_transformation_mode"] == b"tf_crop_and_resize":
+        msg = "Error: Resize with tf_crop_and_resize not implemented"
+        raise ValueError(msg)
+    if list(attributes["axes"]) not in ([], list(range(len(input_shape)))):
+        msg = f"Error: Resize along axes {attributes['axes']} not implemented"
+        raise ValueError(msg)
+    if output_shape[:2] != input_shape[:2]:
+        msg = "Error: Resize of the batch or channels not implemented"
+        raise ValueError(msg)
 
     if len(initializers) > 2 and initializers[2]:
         # target size
-- 
2.43.0


From f68d8ba638add2eeafb1a19ec3abc202ef1a0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 34/88] fix: negative or computed padding gives wrong or
 failing programs

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 60c71f1..6d6f3ac 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -282,6 +282,9 @@ def check_window(node: onnx.NodeProto, attributes: dict[str, Any]) -> None:
         if any(dilation != 1 for dilation in attributes["dilations"]):
             msg = f"Error: dilation in {node.op_type} not supported"
             raise ValueError(msg)
+    if any(pad < 0 for pad in attributes.get("pads", [])):
+        msg = f"Error: negative padding in {node.op_type} not supported"
+        raise ValueError(msg)
     for name in names:
         if len(set(attributes[name])) != 1:
             msg = f"Error: {name} differing between axes in {node.op_type} not supported"
@@ -502,9 +505,15 @@ def create_pad(
         for initializer_name in node.input[1:]
     ]
     attributes = extract_attributes(node)
+    if any(name and not init for name, init in zip(node.input[1:], initializers)):
+        msg = "Error: Pad with computed parameters not supported"
+        raise ValueError(msg)
 
     # Pads and value of the constant, which is optional
     pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    if any(pad < 0 for pad in pads):
+        msg = "Error: negative padding in Pad not supported"
+        raise ValueError(msg)
     constant_value = 0.0
     if len(initializers) > 1 and initializers[1]:
         constant_value = onnx.numpy_helper.to_array(initializers[1]).item()
-- 
2.43.0


From a86a8450f7df98ba15fc20e0b31bc88ab7deb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 35/88] fix: inputs whose shape is not known are taken as being
 of size 1

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6d6f3ac..b5dc8f5 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -207,6 +207,10 @@ def create_input_layer(
         input_layer.type.tensor_type.shape.dim[i].dim_value
         for i in range(len(input_layer.type.tensor_type.shape.dim))
     ]
+    # The number of rows may be left open, not the size of one
+    if not all(output_shape[1:]):
+        msg = f"Error: dimensions of input {input_layer.name} are not all known"
+        raise ValueError(msg)
     size = find_size(output_shape)
 
     return InputLayer(
-- 
2.43.0


From 7fb3f03a17443412f347362be59a44603517b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 36/88] fix: integer models with rounding operators are
 computed in floating point

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index fbd12be..5975f95 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -188,6 +188,12 @@ def load_onnx(
         inputs[0].type.tensor_type.elem_type,
     )
 
+    # All other types are computed in floating point
+    truncating = {"Div", "ReduceMean", "Resize"}
+    if data_type.kind != "f" and truncating & {n.op_type for n in model.graph.node}:
+        msg = f"Error: {data_type} models with rounding operators are not supported\n"
+        raise TypeError(msg)
+
     data_type, data_type_py = find_data_type(str(data_type))
 
     # Sorting the graph and adding the road to the layers
-- 
2.43.0


From c2f247e8a0ca4bfb023c634c2418a610a64a0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 37/88] fix: transposing the batch axis gives programs that do
 not compile

---
 src/acetone_nnet/generator/layers/transpose/Transpose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index cee3d6c..04349eb 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -91,6 +91,9 @@ class Transpose(Layer):
             msg += (f"Error: size value in Transpose "
                     f"({self.size}!={self.output_channels * self.output_height * self.output_width})")
             msg += "\n"
+        if self.perm[0] != 0:
+            msg += "Error: perm in Transpose (the batch axis cannot be moved)"
+            msg += "\n"
         seen = []
         for indice in self.perm:
             if indice < 0 or indice >= 4:
-- 
2.43.0


From 35111e7b3023a3b41010e0f25b44364d0822dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 38/88] fix: PyTorch operators the importer does not know are
 rejected, not ignored or mistaken for others

---
 .../PYTORCH_importer/parse_pytorch.py         | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..e32f7b7 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -135,7 +135,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        # ATen operators are named operator.overload
+        operator = target_name.split(".")[0]
+        if operator == "linear":
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
@@ -148,16 +150,16 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
+        elif operator in ("relu", "relu_"):
             self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
             self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "clamp" in target_name:
+        elif operator in ("clamp", "clamp_"):
             self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
                 max_value=node.args[2],
                 min_value=node.args[1]
             )
             self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "conv2d" in target_name:
+        elif operator == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
@@ -188,7 +190,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif operator == "batch_norm":
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
@@ -203,7 +205,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
+        elif operator in ("add", "add_"):
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
@@ -220,7 +222,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif operator == "cat":
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
@@ -235,11 +237,11 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "dropout" in target_name:
+        elif "dropout" in operator:
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
+        elif operator == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
+        elif operator == "max_pool2d":
             kernel = node.args[1][0] if len(node.args) > 1 else 1
             stride = node.args[2][0] if len(node.args) > 2 else 1
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
@@ -260,7 +262,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif operator == "adaptive_avg_pool2d":
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -277,12 +279,20 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
+        else:
+            msg = f"Error: PyTorch operator {target_name} not supported\n"
+            raise TypeError(msg)
 
     def visit_call_module(self, node: torch.fx.Node):
         self._print_node("MODULE", node, f"mod: {node.target}")
+        if node.target != "_guards_fn": # checks on the inputs
+            msg = f"Error: PyTorch module {node.target} not supported\n"
+            raise TypeError(msg)
 
     def visit_call_method(self, node: torch.fx.Node):
         self._print_node("METHOD", node, f"obj.{node.target}(args={node.args})")
+        msg = f"Error: PyTorch method {node.target} not supported\n"
+        raise TypeError(msg)
 
     def visit_get_attr(self, node: torch.fx.Node):
         # Attributes usually identify parameters/buffers, which also have shapes in ExportedProgram
-- 
2.43.0


From 496b518b3fb1f6193f944b88196766f1faedcf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 39/88] fix: PyTorch activations of a shared, activated or
 input tensor get a layer of their own

---
 .../PYTORCH_importer/parse_pytorch.py         | 51 ++++++++++++++++---
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index e32f7b7..783a06a 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -132,6 +133,42 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _feeds_only(self, layer: Layer, node: torch.fx.Node) -> bool:
+        """Whether the output of the layer is used by the node alone."""
+        names = [n for n, (l, _) in self.layerdic.items() if l is layer]
+        users = {
+            user.name
+            for n in self.module.graph.nodes if n.name in names
+            for user in n.users
+        }
+        return users.difference(names) == {node.name}
+
+    def _add_activation(self, node: torch.fx.Node, activation: ActivationFunctions):
+        """Set the activation of the previous layer, or add a layer if it cannot have it."""
+        previous = self.layerdic[node.args[0].name][0]
+        if (
+            not isinstance(previous, InputLayer)
+            and type(previous.activation_function) is Linear
+            and self._feeds_only(previous, node)
+        ):
+            previous.activation_function = activation
+            self.layerdic[node.name] = (previous, node.meta['val'].shape) # register
+            return
+        this_layer = ActivationLayer(
+            original_name=node.name,
+            idx=self.idx,
+            size=node.meta['val'].numel(),
+            activation_function=activation,
+        )
+        previous.next_layer.append(this_layer)
+        this_layer.previous_layer.append(previous)
+        self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
+        self.idx+=1
+        if node.target.__name__.split(".")[0].endswith("_"): # the input has been overwritten
+            for n, (layer, shape) in self.layerdic.items():
+                if layer is previous:
+                    self.layerdic[n] = (this_layer, shape)
+
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
@@ -151,14 +188,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif operator in ("relu", "relu_"):
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._add_activation(node, ReLu())
         elif operator in ("clamp", "clamp_"):
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
-                max_value=node.args[2],
-                min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            min_value = node.args[1] if len(node.args) > 1 else None
+            max_value = node.args[2] if len(node.args) > 2 else None
+            self._add_activation(node, Clip(
+                max_value=np.inf if max_value is None else max_value,
+                min_value=-np.inf if min_value is None else min_value,
+            ))
         elif operator == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
-- 
2.43.0


From 133923e2c50e38a677075a17811fc734aa4b5322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 40/88] fix: PyTorch linear layers without bias

---
 .../importers/PYTORCH_importer/parse_pytorch.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 783a06a..294ab6c 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -175,12 +175,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # ATen operators are named operator.overload
         operator = target_name.split(".")[0]
         if operator == "linear":
+            weights = self.module.state_dict()[node.args[1].target].numpy().T
+            bias = node.args[2] if len(node.args) > 2 else None
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
                 size=node.meta['val'].numel(),
-                weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                weights=weights,
+                biases=self.module.state_dict()[bias.target].numpy() if bias is not None else np.zeros(weights.shape[-1],dtype=weights.dtype),
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-- 
2.43.0


From 575c10d64fdad3be34c733d73cb591c0ed615435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 41/88] fix: PyTorch convolution: kernel width and height,
 string padding, missing bias; differing strides rejected

---
 .../PYTORCH_importer/parse_pytorch.py         | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 294ab6c..56f8e4c 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -169,6 +169,18 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 if layer is previous:
                     self.layerdic[n] = (this_layer, shape)
 
+    def _same_value(self, node: torch.fx.Node, values: list[int]) -> int:
+        """Return the value of an attribute which has to be the same along both dimensions."""
+        if len(set(values)) != 1:
+            msg = f"Error: {node.name}: attributes differing between height and width not supported ({values})\n"
+            raise ValueError(msg)
+        return values[0]
+
+    def _padding(self, padding: list[int]) -> list[int]:
+        """Return the padding at the beginning, then at the end, of each dimension."""
+        padding = list(padding) if len(padding) == 2 else list(padding) * 2
+        return padding + padding
+
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
@@ -203,10 +215,18 @@ class ShapeAwareVisitor(FXGraphVisitor):
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
                 logging.info(f"[LAYOUT] : {self.data_format}")
-            stride = node.args[3][0] if len(node.args) > 3 else 1
-            padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-            dilation = node.args[5][0] if len(node.args) > 5 else 1
+            bias = node.args[2] if len(node.args) > 2 else None
+            stride = self._same_value(node, node.args[3]) if len(node.args) > 3 else 1
+            padding = node.args[4] if len(node.args) > 4 else [0,0]
+            dilation = self._same_value(node, node.args[5]) if len(node.args) > 5 else 1
             group = node.args[6] if len(node.args) > 6 else 1
+            kernel_h, kernel_w = self.module.state_dict()[node.args[1].target].shape[-2:]
+            if padding == "same":
+                # as much on both sides, the odd element at the end
+                needed = [dilation * (kernel_h - 1), dilation * (kernel_w - 1)]
+                padding = [n // 2 for n in needed] + [n - n // 2 for n in needed]
+            else:
+                padding = [0,0,0,0] if padding == "valid" else self._padding(padding)
             this_layer = Conv2D(
                     conv_algorithm="specs",
                     original_name=node.name,
@@ -215,14 +235,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
-                    kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=kernel_h,
+                    kernel_w=kernel_w,
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self.module.state_dict()[bias.target].numpy() if bias is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-- 
2.43.0


From 46a17ecd14d024bac0fa3284b7e32c3bcd44dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 42/88] fix: reference and direct_block implementation of
 grouped convolutions

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py      | 5 ++++-
 .../generator/layers/convolution/Conv2Ddirect_block.py       | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 9e83601..b3b1bd8 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -268,13 +268,16 @@ class Conv2D(Layer):
             input_padded = input_array
 
         rate = self.dilation_rate
+        group_channels = self.input_channels // self.group
         for f in range(self.nb_filters):
+            # The filter reads the channels of its group
+            channel = f // (self.nb_filters // self.group) * group_channels
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     w = (
                         self.weights[f, :, :, :]
                         * input_padded[
-                            ::self.group,
+                            channel : channel + group_channels,
                             i * self.strides : i * self.strides + self.kernel_h * rate : rate,
                             j * self.strides : j * self.strides + self.kernel_w * rate : rate,
                         ]
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index 5f5abae..2509150 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -72,6 +72,10 @@ class Conv2Ddirect_block(Conv2D):
     def __init__(self: Self, **kwargs: Any) -> None:
         """Build a Convolution layer with 6 loops implementation."""
         super().__init__(**kwargs)
+
+        if self.group != 1 and not (self.group == self.input_channels == self.nb_filters):
+            msg = f"Error: direct_block Conv2D with {self.group} groups not supported (only 1 or depthwise)\n"
+            raise ValueError(msg)
         #output channel block size for 3x3 <= 64, and for 1x1 <= 512
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
-- 
2.43.0


From fb3029893be132ed3ad430c774032b28c442e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 43/88] fix: PyTorch pooling: default stride, window and
 padding of both dimensions; dilation rejected

---
 .../importers/PYTORCH_importer/parse_pytorch.py     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 56f8e4c..6a04c16 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -301,10 +301,13 @@ class ShapeAwareVisitor(FXGraphVisitor):
         elif operator == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
         elif operator == "max_pool2d":
-            kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
-            padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
-            dilation = node.args[4][0] if len(node.args) > 4 else 1
+            kernel = self._same_value(node, node.args[1])
+            # The default stride is the size of the window
+            stride = self._same_value(node, node.args[2]) if len(node.args) > 2 and node.args[2] else kernel
+            padding = self._padding(node.args[3]) if len(node.args) > 3 else [0,0,0,0]
+            if len(node.args) > 4 and self._same_value(node, node.args[4]) != 1:
+                msg = f"Error: {node.name}: dilated pooling not supported\n"
+                raise ValueError(msg)
             this_layer = MaxPooling2D(
                     original_name=node.name,
                     idx=self.idx,
@@ -328,7 +331,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 size=node.meta['val'].numel(),
                 padding=[0, 0, 0, 0],
                 strides=1,
-                pool_size=self.layerdic[node.args[0].name][1][-1],
+                pool_size=self._same_value(node, self.layerdic[node.args[0].name][1][-2:]),
                 input_shape=self.layerdic[node.args[0].name][1],
                 output_shape=node.meta['val'].shape,
                 activation_function=Linear(),
-- 
2.43.0


From be98c7cb48ab8e247ed2983ba3fb9f4513d81373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 44/88] fix: PyTorch batch normalisation is only merged in a
 convolution it alone follows

---
 .../PYTORCH_importer/parse_pytorch.py         | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 6a04c16..7b61193 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -250,20 +250,43 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif operator == "batch_norm":
-            # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
-            bn_w = self.module.state_dict()[node.args[1].target]
-            bn_b = self.module.state_dict()[node.args[2].target]
             bn_rm = self.module.state_dict()[node.args[3].target]
             bn_rv = self.module.state_dict()[node.args[4].target]
+            bn_w = self.module.state_dict()[node.args[1].target] if node.args[1] is not None else torch.ones_like(bn_rv)
+            bn_b = self.module.state_dict()[node.args[2].target] if node.args[2] is not None else torch.zeros_like(bn_rm)
             bn_eps = node.args[7]
-            bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
-            conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
-            conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
-            conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
-            conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
-            self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
-            self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
+            previous = self.layerdic[node.args[0].name][0]
+            if (
+                isinstance(previous, Conv2D)
+                and type(previous.activation_function) is Linear
+                and self._feeds_only(previous, node)
+            ):
+                # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
+                self.layerdic[node.name] = self.layerdic[node.args[0].name]
+                bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
+                conv_w = torch.from_numpy(previous.weights)
+                conv_b = torch.from_numpy(previous.biases)
+                conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
+                conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
+                previous.weights = conv_w.numpy()
+                previous.biases = conv_b.numpy()
+            else:
+                this_layer = BatchNormalization(
+                    original_name=node.name,
+                    idx=self.idx,
+                    size=node.meta['val'].numel(),
+                    input_shape=node.meta['val'].shape,
+                    epsilon=bn_eps,
+                    scale=bn_w.numpy(),
+                    biases=bn_b.numpy(),
+                    mean=bn_rm.numpy(),
+                    var=bn_rv.numpy(),
+                    activation_function=Linear(),
+                )
+                previous.next_layer.append(this_layer)
+                this_layer.previous_layer.append(previous)
+                self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
+                self.idx+=1
         elif operator in ("add", "add_"):
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
-- 
2.43.0


From c8cf8caa3077ea3f6b3d45b0f280ad473ff1ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 45/88] fix: PyTorch programs with several inputs or outputs,
 unused layers, scaled or constant additions

---
 .../importers/PYTORCH_importer/parse_pytorch.py  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 7b61193..a78999e 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -32,6 +32,7 @@ from acetone_nnet.generator import (
     TanH,
 )
 from acetone_nnet.graph import graph_interpretor
+from acetone_nnet.importers.ONNX_importer.parser_ONNX import remove_dead_layers
 from acetone_nnet.ir import Layer
 
 from torch.export import export, ExportedProgram
@@ -288,7 +289,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
                 self.idx+=1
         elif operator in ("add", "add_"):
-            if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
+            if node.kwargs.get("alpha", 1) != 1:
+                msg = f"Error: {node.name}: addition with a factor (alpha) not supported\n"
+                raise ValueError(msg)
+            if node.users or node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
                     idx=self.idx,
@@ -387,13 +391,21 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # The output node usually contains the return value in args[0]
         # We look at the meta of the output node itself if available, or the inputs
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
+        # The generated code reads one input tensor and writes one output tensor
+        inputs = [l for l, _ in self.layerdic.values() if isinstance(l, InputLayer)]
+        if len(inputs) != 1 or len(node.args[0]) != 1:
+            msg = "Error: models with several inputs or outputs are not supported\n"
+            raise ValueError(msg)
+        self.output = self.layerdic[node.args[0][0].name][0]
 
 
 
 def load_pytorch(program : ExportedProgram):
     visitor = ShapeAwareVisitor()
     visitor.visit(program.module())
-    layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
+    # Removing the layers which do not contribute to the output
+    layers = remove_dead_layers([l[0] for l in visitor.layerdic.values()], visitor.output)
+    layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
     return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0


From 119e03ee9a15a892b5545652f6d77c88de000510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 46/88] fix: PyTorch models of single-channel images are not
 channels-last

---
 .../importers/PYTORCH_importer/parse_pytorch.py        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index a78999e..86df2d9 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -126,7 +126,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             idx=self.idx,
             size=node.meta['val'].numel(),
             input_shape=node.meta['val'].shape,
-            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
+            data_format="channels_last" if self._is_channels_last(node.meta['val']) else "channels_first",
         )
         self.data_format = this_layer.data_format
         logging.info(f"[LAYOUT] : {self.data_format}")
@@ -134,6 +134,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _is_channels_last(self, val: torch.Tensor) -> bool:
+        """Tell the layout of a tensor (it has both when its channels or its pixels are single)."""
+        return val.is_contiguous(memory_format=torch.channels_last) and not val.is_contiguous()
+
     def _feeds_only(self, layer: Layer, node: torch.fx.Node) -> bool:
         """Whether the output of the layer is used by the node alone."""
         names = [n for n, (l, _) in self.layerdic.items() if l is layer]
@@ -214,7 +218,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
         elif operator == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
-                self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
+                self.data_format = "channels_last" if self._is_channels_last(self.module.state_dict()[node.args[1].target]) else "channels_first"
                 logging.info(f"[LAYOUT] : {self.data_format}")
             bias = node.args[2] if len(node.args) > 2 else None
             stride = self._same_value(node, node.args[3]) if len(node.args) > 3 else 1
@@ -392,7 +396,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # We look at the meta of the output node itself if available, or the inputs
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
         # The generated code reads one input tensor and writes one output tensor
-        inputs = [l for l, _ in self.layerdic.values() if isinstance(l, InputLayer)]
+        inputs = {l.idx for l, _ in self.layerdic.values() if isinstance(l, InputLayer)}
         if len(inputs) != 1 or len(node.args[0]) != 1:
             msg = "Error: models with several inputs or outputs are not supported\n"
             raise ValueError(msg)
-- 
2.43.0


From d88c362cf2d1b49761e3e253ab6724171f3cfb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 47/88] fix: data type of PyTorch programs

---
 .../importers/PYTORCH_importer/parse_pytorch.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 86df2d9..1222ef2 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -32,7 +32,7 @@ from acetone_nnet.generator import (
     TanH,
 )
 from acetone_nnet.graph import graph_interpretor
-from acetone_nnet.importers.ONNX_importer.parser_ONNX import remove_dead_layers
+from acetone_nnet.importers.ONNX_importer.parser_ONNX import find_data_type, remove_dead_layers
 from acetone_nnet.ir import Layer
 
 from torch.export import export, ExportedProgram
@@ -129,6 +129,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             data_format="channels_last" if self._is_channels_last(node.meta['val']) else "channels_first",
         )
         self.data_format = this_layer.data_format
+        self.data_type = str(node.meta['val'].dtype).replace('torch.', '')
         logging.info(f"[LAYOUT] : {self.data_format}")
         self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
         self.idx+=1
@@ -412,4 +413,5 @@ def load_pytorch(program : ExportedProgram):
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
-    return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
+    data_type, data_type_py = find_data_type(visitor.data_type)
+    return layers, data_type, data_type_py, visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0


From c0e4b65f572d6b268f5476629612b5eaba8dcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 48/88] fix: input layer of JSON models

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..fd98415 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -113,6 +113,7 @@ def load_json(
     layers = []
 
     l_temp = InputLayer(
+        model["config"]["layers"][0]["config"]["name"],
         0,
         model["config"]["layers"][0]["config"]["size"],
         model["config"]["layers"][0]["config"]["input_shape"],
-- 
2.43.0


From e9db6e611bcb3ac10a0ee865910f4809b80f7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 49/88] fix: layout of the weights of JSON models

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index fd98415..b9cda35 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -141,7 +141,8 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["units"],
-                weights=np.array(data_type_py(layer["weights"])),
+                # Stored as [input][output], or [1][1][input][output]
+                weights=data_type_py(layer["weights"]).reshape(-1, layer["config"]["units"]),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
@@ -162,7 +163,8 @@ def load_json(
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                # Stored as [input channel][height][width][filter]
+                weights=np.moveaxis(data_type_py(layer["weights"]), 3, 0),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
-- 
2.43.0


From eef57f55e2e3782531f6f05af3b9592e4ce12b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 50/88] fix: JSON models with dropout, batch normalisation or
 softmax before other layers

---
 .../importers/JSON_importer/parser_JSON.py    | 39 +++++++++----------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index b9cda35..1cc387b 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -122,12 +122,11 @@ def load_json(
 
     layers.append(l_temp)
 
-    nb_softmax_layers = 0
-
-    for idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
+    # The layer producing the output of each layer of the file
+    producers = [l_temp]
+    for layer in islice(model["config"]["layers"], 1, None):
         add_softmax_layer = False
-
-        idx += nb_softmax_layers
+        idx = len(layers)
 
         if (
             "activation" in layer["config"]
@@ -209,7 +208,7 @@ def load_json(
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -219,7 +218,7 @@ def load_json(
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -229,7 +228,7 @@ def load_json(
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -242,7 +241,7 @@ def load_json(
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
                 input_shapes=layer["config"]["input_shape"],
@@ -253,7 +252,7 @@ def load_json(
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -263,7 +262,7 @@ def load_json(
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -273,7 +272,7 @@ def load_json(
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -295,7 +294,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -305,9 +304,9 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
                 epsilon=layer["config"]["epsilon"],
@@ -319,25 +318,24 @@ def load_json(
             )
 
         elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
+            "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
+            producers.append(producers[layer["config"]["prev_layer_idx"][0]])
             continue
 
         else:
             raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(producers[i])
+            producers[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
 
         # Separated method to generate softmax
         if add_softmax_layer:
-            nb_softmax_layers += 1
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
@@ -349,6 +347,7 @@ def load_json(
             current_layer.previous_layer.append(l_temp)
             l_temp = current_layer
             layers.append(current_layer)
+        producers.append(current_layer)
 
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
-- 
2.43.0


From b4404fe289bd672d70ffd2437283952690b27a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 51/88] fix: axes of Softmax and Concatenate in JSON models

---
 .../importers/JSON_importer/parser_JSON.py            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 1cc387b..a5bdfd4 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -88,6 +88,13 @@ def create_resize_obj(
     raise ValueError("Error: resize mode " + mode + " not implemented")
 
 
+def softmax_axis(output_shape: list[int], data_format: str) -> int | None:
+    """Return the position, channels first, of the last dimension of a tensor."""
+    if len(output_shape) < 4:
+        return None
+    return 1 if data_format == "channels_last" else 3
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -237,6 +244,8 @@ def load_json(
 
         elif layer["class_name"] == "Concatenate":
             axis = layer["config"]["axis"]
+            if axis < 0:
+                axis += len(layer["config"]["output_shape"])
             if data_format == "channels_last":
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
@@ -341,7 +350,7 @@ def load_json(
                 idx=idx + 1,
                 size=l_temp.size,
                 output_shape=layer["config"]["output_shape"],
-                axis=None,
+                axis=softmax_axis(layer["config"]["output_shape"], data_format),
             )
             l_temp.next_layer.append(current_layer)
             current_layer.previous_layer.append(l_temp)
-- 
2.43.0


From 220af03d11598dba1fe88eb105ebe4d1b8238afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 52/88] fix: ZeroPadding2D given by a single number in JSON
 models

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index a5bdfd4..64d38ef 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -291,7 +291,7 @@ def load_json(
         elif layer["class_name"] == "ZeroPadding2D":
             pads = layer["config"]["padding"]
             if type(pads) is int:
-                pads = [pads for i in range(8)]
+                pads = [0, 0, pads, pads, 0, 0, pads, pads]
             else:
                 if type(pads[0]) is int:
                     pad_top, pad_bottom = pads[0], pads[0]
-- 
2.43.0


From a1cbd33d658e16effb8f5313c67c78f589a2b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 53/88] fix: JSON models with several outputs or unsupported
 attributes are rejected

---
 .../importers/JSON_importer/parser_JSON.py    | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 64d38ef..bd900f8 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -95,6 +95,14 @@ def softmax_axis(output_shape: list[int], data_format: str) -> int | None:
     return 1 if data_format == "channels_last" else 3
 
 
+def same_value(values: list[int]) -> int:
+    """Return the value of an attribute which has to be the same along both dimensions."""
+    if len(set(values)) != 1:
+        msg = f"Error: attributes differing between height and width not supported ({values})\n"
+        raise ValueError(msg)
+    return values[0]
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -162,10 +170,10 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
+                strides=same_value(layer["config"]["strides"]),
                 kernel_h=layer["config"]["kernel_size"][0],
                 kernel_w=layer["config"]["kernel_size"][1],
-                dilation_rate=layer["config"]["dilation_rate"][0],
+                dilation_rate=same_value(layer["config"]["dilation_rate"]),
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -183,8 +191,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=same_value(layer["config"]["strides"]),
+                pool_size=same_value(layer["config"]["pool_size"]),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -196,8 +204,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=same_value(layer["config"]["strides"]),
+                pool_size=same_value(layer["config"]["pool_size"]),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -330,6 +338,15 @@ def load_json(
             "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
+            shapes = [layer["config"]["input_shape"], layer["config"]["output_shape"]]
+            if (
+                layer["class_name"] == "Reshape"
+                and data_format == "channels_last"
+                and any(len(s) == 4 and s[1] > 1 and s[2] * s[3] > 1 for s in shapes)
+            ):
+                # The values are stored channels first
+                msg = "Error: Reshape of a channels-last image not supported\n"
+                raise ValueError(msg)
             producers.append(producers[layer["config"]["prev_layer_idx"][0]])
             continue
 
@@ -358,6 +375,11 @@ def load_json(
             layers.append(current_layer)
         producers.append(current_layer)
 
+    # The generated code writes one output tensor
+    if sum(not layer.next_layer for layer in layers) != 1:
+        msg = "Error: models with several outputs are not supported\n"
+        raise ValueError(msg)
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From 89f6f1624f319c6e7b5e3970820294d58cf38e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 54/88] fix: element-wise layers of JSON models fail to import

---
 src/acetone_nnet/generator/layers/broadcast/Broadcast.py        | 2 +-
 src/acetone_nnet/generator/layers/broadcast/average/Average.py  | 2 +-
 src/acetone_nnet/generator/layers/broadcast/divide/Divide.py    | 2 +-
 src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py  | 2 +-
 src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py  | 2 +-
 .../generator/layers/broadcast/multiply/Multiply.py             | 2 +-
 .../generator/layers/broadcast/subtract/Subtract.py             | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/Broadcast.py b/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
index fa48686..1c938e2 100644
--- a/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
+++ b/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
@@ -50,7 +50,7 @@ class Broadcast(Layer):
         super().__init__()
         self.idx = idx
         self.size = size
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
         self.original_name = original_name
 
         self.output_height = output_shape[2]
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index 0816952..e20e680 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -50,7 +50,7 @@ class Average(Layer):
         else:
             self.original_name = original_name
         self.specific_operator = " + "
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
         self.activation_function = activation_function
 
         self.output_height = output_shape[2]
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index d67a028..bcaeec7 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -50,7 +50,7 @@ class Divide(Layer):
         else:
             self.original_name = original_name
         self.specific_operator = " / "
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
 
         self.output_height = output_shape[2]
         self.output_width = output_shape[3]
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index b2c543f..7a02b8b 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -50,7 +50,7 @@ class Maximum(Layer):
         else:
             self.original_name = original_name
         self.specific_operator = ", "
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
 
         self.output_height = output_shape[2]
         self.output_width = output_shape[3]
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 9c99532..96a4ab5 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -50,7 +50,7 @@ class Minimum(Layer):
         else:
             self.original_name = original_name
         self.specific_operator = ", "
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
 
         self.output_height = output_shape[2]
         self.output_width = output_shape[3]
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 6f5444c..35429cc 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -50,7 +50,7 @@ class Multiply(Layer):
         else:
             self.original_name = original_name
         self.specific_operator = "*"
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
 
         self.output_height = output_shape[2]
         self.output_width = output_shape[3]
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index e98e39c..780ed94 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -50,7 +50,7 @@ class Subtract(Layer):
         else:
             self.original_name = original_name
         self.specific_operator = " - "
-        self.input_shapes = input_shapes
+        self.input_shapes = np.array(input_shapes)
 
         self.output_height = output_shape[2]
         self.output_width = output_shape[3]
-- 
2.43.0


From e7f53c1dacfddfc09c84c5b710f2e356332b5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:33 +0000
Subject: [PATCH 55/88] fix: channels-last models ending with a Softmax over
 images have no Python reference

---
 src/acetone_nnet/generator/layers/softmax/Softmax.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index 856e68d..d6f5557 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -108,4 +108,7 @@ class Softmax(Layer):
             self.axis = -1
 
         exp = np.exp(input_array, dtype=float)
-        return self.activation_function.compute(exp / np.sum(exp, keepdims=True, axis=self.axis))
\ No newline at end of file
+        output = exp / np.sum(exp, keepdims=True, axis=self.axis)
+        if not self.one_dimension:
+            output = output[0] # without the batch dimension, as other layers
+        return self.activation_function.compute(output)
\ No newline at end of file
-- 
2.43.0


From 47d261806c0aeef7d897dc6fb86330931680b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 56/88] fix: Dense over images in JSON models is rejected

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index bd900f8..b5d20c2 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -151,6 +151,9 @@ def load_json(
             add_softmax_layer = True
 
         if layer["class_name"] == "Dense":
+            if len(layer["config"]["output_shape"]) > 2:
+                msg = "Error: Dense along one dimension of an image not supported\n"
+                raise ValueError(msg)
             current_layer = Dense(
                 original_name=layer["config"]["name"],
                 idx=idx,
-- 
2.43.0


From 69995fd6e4e348ea62901e24d3ee7688d6cd3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 57/88] fix: the comparison tool misses rows, values, nan and
 decimal notation

---
 src/acetone_nnet/cli/compare.py | 43 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..186e6bc 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -21,6 +21,7 @@
 
 import argparse
 import sys
+from itertools import zip_longest
 from pathlib import Path
 
 import numpy as np
@@ -33,10 +34,13 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
-    diff = abs(a - b)
+    # In double precision, whatever the precision of the values
+    a, b = float(a), float(b)
 
     if a == b:
-        return True, diff, 0.0
+        return True, 0.0, 0.0
+
+    diff = abs(a - b)
 
     norm = min((abs(a) + abs(b)), sys.float_info.max)
     rel_diff = diff / (norm / 2) if norm != 0 else 0.0
@@ -46,9 +50,14 @@ def compare_floats(
     return False, diff, rel_diff
 
 
+def parse_float(value: str) -> float:
+    """Read a value written in hexadecimal or decimal notation."""
+    return float.fromhex(value) if "x" in value.lower() else float(value)
+
+
 def preprocess_line(line: str, precision: str) -> list:
     """Cast a list of str to a list of float."""
-    values: list = [float.fromhex(x) for x in line.split(" ") if x.strip()]
+    values: list = [parse_float(x) for x in line.split(" ") if x.strip()]
     if precision == "double":
         values = list(map(np.float64, values))
     elif precision == "float":
@@ -66,14 +75,19 @@ def compare_lines(
     values_f2 = preprocess_line(line_f2, precision)
     max_diff = 0.0
     max_rel_diff = 0.0
-    length = len(values_f1)
+    length = min(len(values_f1), len(values_f2))
     line_comparison = True
 
+    if len(values_f1) != len(values_f2):
+        # Values without a counterpart
+        line_comparison = False
+        max_diff = max_rel_diff = float("inf")
+
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
-        max_diff = max(diff, max_diff)
-        max_rel_diff = max(rel_diff, max_rel_diff)
+        max_diff = float(np.maximum(diff, max_diff))
+        max_rel_diff = float(np.maximum(rel_diff, max_rel_diff))
 
     if line_comparison:
         return True, max_diff, max_rel_diff
@@ -95,22 +109,19 @@ def compare_files(
     max_rel_diff_file = 0.0
     line_comparison = True
 
-    for line_f1, line_f2, line_counter in zip(
-        f1,
-        f2,
-        range(nb_tests + 1),
-        strict=False,
+    for line_counter, (line_f1, line_f2) in enumerate(
+        zip_longest(f1, f2, fillvalue=""),
     ):
+        if line_counter == int(nb_tests):
+            break
+
         float_comparison, max_diff_line, max_rel_diff_line = (
             compare_lines(line_f1, line_f2, precision)
         )
         line_comparison = float_comparison & line_comparison
 
-        max_diff_file = max(max_diff_line, max_diff_file)
-        max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
-
-        if line_counter == int(nb_tests):
-            break
+        max_diff_file = float(np.maximum(max_diff_line, max_diff_file))
+        max_rel_diff_file = float(np.maximum(max_rel_diff_line, max_rel_diff_file))
 
     f1.close()
     f2.close()
-- 
2.43.0


From 167ea7f4fe597a3ccd7a557bfa0185cad99b0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 58/88] fix: programs reading their inputs from a file do not
 build

---
 src/acetone_nnet/generator/neural_network.py                | 5 ++++-
 src/acetone_nnet/templates/template_main_file.c.tpl         | 6 +++++-
 .../templates/template_test_dataset_header.c.tpl            | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 8e3af66..0f26861 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -491,7 +491,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
@@ -706,6 +705,10 @@ class CodeGenerator(ABC):
                         "data_type": self.data_type,
                         "read_input": self.read_ext_input,
                         "verbose": self.verbose,
+                        "input_format": {
+                            "float32": "%f", "float64": "%lf",
+                            "int8": "%hhd", "int16": "%hd", "int32": "%d",
+                        }.get(np.dtype(self.data_type_py).name, "%f"),
                         "format": (
                             "%d"
                             if np.issubdtype(self.data_type_py, np.integer)
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..7d8be7f 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
@@ -29,7 +33,7 @@ int main(int argc, char** argv)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            fscanf(input_file, "{{input_format}}", &nn_test_inputs[i][j]);
         }
     }
     fclose(input_file);
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 523b337612bc3554efc1d4d2351a17bf861a1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 59/88] fix: test datasets of another size or type than the
 model's input

---
 src/acetone_nnet/generator/neural_network.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 0f26861..632dc00 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -399,12 +399,16 @@ class CodeGenerator(ABC):
                         dtype=self.data_type_py,
                     )
             case np.ndarray() as dataset:
-                d = dataset
+                d = np.asarray(dataset, dtype=self.data_type_py)
                 self.nb_tests = dataset.shape[0]
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
+                self.nb_tests = d.shape[0]
             case _:
                 raise ValueError
+        if d.size != self.nb_tests * self.layers[0].size:
+            msg = f"Error: test dataset.\n Each row must hold {self.layers[0].size} values"
+            raise ValueError(msg)
         return d
 
     def _load_dataset(
@@ -495,6 +499,11 @@ class CodeGenerator(ABC):
         else:
             dataset = self.test_dataset
 
+        # What an empty dataset gives
+        debug_output: list[np.ndarray] = []
+        targets: list[str] = []
+        nn_output = np.array([], dtype=self.data_type_py)
+
         with (Path(c_files_directory) / "output_python.txt").open("w") as fi:
             for nn_input in dataset:
                 # Debug Mode output
@@ -609,7 +618,7 @@ class CodeGenerator(ABC):
         return str(float(d))
 
     def c2data(self, c):
-        return float.fromhex(c) if self.to_hex else float(c)
+        return float.fromhex(c) if isinstance(c, str) and "x" in c.lower() else float(c)
 
     def flatten_array_order_c(self: Self, array: np.ndarray) -> str:
         """Generate C flat array initializer in C order."""
@@ -671,6 +680,9 @@ class CodeGenerator(ABC):
         if self.bin_dataset:
             with Path.open(output_dir / "test_dataset.dat", "w+") as test_dataset_bin:
                 self.test_dataset.copy("C").tofile(test_dataset_bin)
+                if self.test_dataset.size == 0:
+                    # objcopy refuses an empty file
+                    test_dataset_bin.write("\0")
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
-- 
2.43.0


From 4a4ef9c53c7def429d4a96caddc71e3985b2e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 60/88] fix: generation overwrites existing binary files

---
 src/acetone_nnet/generator/neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 632dc00..c4fdb30 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -792,7 +792,10 @@ class CodeGenerator(ABC):
         c_files_directory = Path(c_files_directory)
         c_files_directory.mkdir(exist_ok=True, parents=True)
 
-        for file in self.files_to_gen:
+        files = list(self.files_to_gen)
+        if self.bin_dataset:
+            files += ["parameters.dat", "test_dataset.dat"]
+        for file in files:
             if (c_files_directory / file).exists():
                 raise FileExistsError(c_files_directory / file)
 
-- 
2.43.0


From 9aa5f1531515c525a1de2057da44657339396bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 61/88] fix: documented forms of custom_generation_functions
 are refused

---
 src/acetone_nnet/generator/neural_network.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index c4fdb30..9f7ee87 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -320,10 +320,15 @@ class CodeGenerator(ABC):
             ]
 
         for k in custom_generation_functions:
-            name, generation_function = custom_generation_functions.get(k, ("", []))
-            if generation_function:
-                file_names.append(name)
-                generation_functions[k] = generation_function
+            functions = custom_generation_functions[k]
+            if isinstance(functions, tuple):
+                # One file written by several functions
+                name, functions = functions
+                functions = [(name, f) for f in functions]
+            for name, generation_function in functions:
+                if name not in file_names:
+                    file_names.append(name)
+                generation_functions.setdefault(k, []).append(generation_function)
 
         return file_names, generation_functions
 
-- 
2.43.0


From 07e197cb18b9bc026ae160c543e8c848072e32e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 62/88] fix: false values of the command line's boolean options
 are taken as true

---
 src/acetone_nnet/cli/generate.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/cli/generate.py b/src/acetone_nnet/cli/generate.py
index 6782ee0..b544532 100644
--- a/src/acetone_nnet/cli/generate.py
+++ b/src/acetone_nnet/cli/generate.py
@@ -66,6 +66,16 @@ def cli_acetone(
     net.compute_inference(output_dir)
 
 
+def boolean(value: str) -> bool:
+    """Read a boolean argument."""
+    if value.lower() in ("true", "1", "yes"):
+        return True
+    if value.lower() in ("false", "0", "no"):
+        return False
+    msg = f"invalid boolean value: {value!r}"
+    raise argparse.ArgumentTypeError(msg)
+
+
 def acetone_generate() -> None:
     """Generate C code from a neural network model description file."""
     parser = argparse.ArgumentParser(
@@ -116,6 +126,9 @@ def acetone_generate() -> None:
         "--optimization",
         help="Activate model optimization on the internal representation.",
         default=False,
+        type=boolean,
+        nargs="?",
+        const=True,
     )
 
     parser.add_argument(
@@ -134,14 +147,18 @@ def acetone_generate() -> None:
     parser.add_argument(
         "--bin_dataset",
         default=False,
-        type=bool,
+        type=boolean,
+        nargs="?",
+        const=True,
         help="generate dataset as a binary file (not source compiled file)",
     )
 
     parser.add_argument(
         "--verbose",
         default=False,
-        type=bool,
+        type=boolean,
+        nargs="?",
+        const=True,
         help="verbose logging at INFO level else WARNING level",
     )
 
-- 
2.43.0


From 8dfd65c82e3bb456e6327b8b595d9c0ad81a9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 63/88] fix: page sizes that are not powers of two are accepted

---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 9f7ee87..b1864c4 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -187,6 +187,9 @@ class CodeGenerator(ABC):
 
         self.target = target
         self.target_page_size = target_page_size
+        if target_page_size <= 0 or target_page_size & (target_page_size - 1):
+            msg = "Error: target page size.\n Must be: power of two"
+            raise ValueError(msg)
 
         if custom_generation_functions is None:
             custom_generation_functions = {}
-- 
2.43.0


From 53f0ad4e9395e148c91481b4a3912d9d1b1c1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 64/88] fix: reference outputs of debug_onnx follow the layers
 of ACETONE

The outputs were those of every node but three, with the final output added last: activations at the
start, constants, bypassed and dead nodes shifted them, and targets were not numbered as the layers.
The model of the caller was modified too.
---
 src/acetone_nnet/debug/debug_onnx.py | 65 ++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/acetone_nnet/debug/debug_onnx.py b/src/acetone_nnet/debug/debug_onnx.py
index 0a53e32..e8560fe 100644
--- a/src/acetone_nnet/debug/debug_onnx.py
+++ b/src/acetone_nnet/debug/debug_onnx.py
@@ -25,6 +25,8 @@ import numpy as np
 import onnx
 import onnxruntime as rt
 
+from acetone_nnet.importers.ONNX_importer.create_layer import unused_layers
+
 
 def clean_inputs(model: onnx.ModelProto) -> None:
     """Remove unused inputs from an ONNX model."""
@@ -39,19 +41,36 @@ def clean_inputs(model: onnx.ModelProto) -> None:
     model.graph.input.extend(new_inputs)
 
 
+def equivalent_nodes(model: onnx.ModelProto) -> list[onnx.NodeProto]:
+    """Get the nodes of an ONNX model having an equivalent in ACETONE."""
+    return [node for node in model.graph.node if node.op_type not in unused_layers]
+
+
+def live_tensors(model: onnx.ModelProto) -> set[str]:
+    """Get the tensors of an ONNX model on which its outputs depend."""
+    live = {output.name for output in model.graph.output}
+    for node in reversed(model.graph.node):
+        if live.intersection(node.output):
+            live.update(node.input)
+    return live
+
+
 def extract_node_outputs(
         model: onnx.ModelProto,
         optimized_model: bool = False,
 ) -> list[str]:
     """Get outputs name of layers of an ONNX model."""
     activation = ["Relu", "Tanh", "Sigmoid", "Clip", "Exp", "Log", "LeakyRelu"]
-    ignored = ["Dropout", "Reshape","Flatten"]
+    live = live_tensors(model)
+    uses = [name for node in model.graph.node for name in node.input]
     outputs_name = []
-    for node in model.graph.node:
-        if optimized_model and (node.op_type in activation):
-            outputs_name[-1] = node.output[0]
-        elif node.op_type in ignored:
+    for node in equivalent_nodes(model):
+        if node.output[0] not in live:
             continue
+        if (optimized_model and node.op_type in activation
+                and node.input[0] in outputs_name and uses.count(node.input[0]) == 1):
+            # The activation is merged with the layer it is applied to
+            outputs_name[outputs_name.index(node.input[0])] = node.output[0]
         else:
             outputs_name.append(node.output[0])
     return outputs_name
@@ -64,8 +83,9 @@ def extract_targets_indices(
     """Extract the indices each layer will have in ACETONE."""
     targets_indices = []
     for name in outputs_name:
-        for i in range(len(model.graph.node)):
-            if model.graph.node[i].output[0] == name:
+        # The layer 0 is the input
+        for i, node in enumerate(equivalent_nodes(model), start=1):
+            if node.output[0] == name:
                 targets_indices.append(i)
     return targets_indices
 
@@ -73,12 +93,12 @@ def extract_targets_indices(
 def run_model_onnx(
         model: str | Path,
         dataset: np.ndarray,
+        outputs_name: list[str] | None = None,
 ) -> list[np.ndarray]:
-    """Compute the inference of an ONNX model."""
+    """Compute the inference of an ONNX model, and give its outputs in the order of the names."""
     sess = rt.InferenceSession(model)
     input_name = sess.get_inputs()[0].name
-    onnx_result = sess.run(None, {input_name: dataset})
-    onnx_result.append(onnx_result.pop(0))
+    onnx_result = sess.run(outputs_name, {input_name: dataset})
 
     for i in range(len(onnx_result)):
         onnx_result[i] = onnx_result[i].ravel().flatten()
@@ -97,22 +117,34 @@ def debug_onnx(
 ) -> (onnx.ModelProto, list[int], list[np.ndarray]):
     """Debug an ONNX model."""
     # Loading the model
-    model = onnx.load(target_model) if isinstance(target_model, str) else target_model
+    if isinstance(target_model, str | Path):
+        model = onnx.load(target_model)
+    else:
+        # The model of the caller is not to be modified
+        model = onnx.ModelProto()
+        model.CopyFrom(target_model)
 
     # Tensor output name and indices for acetone debug
     if not debug_target:
         inter_layers = extract_node_outputs(model, optimized_model)
         targets_indices = []
     else:
-        inter_layers = debug_target
+        # In the order of the layers, as in the results of ACETONE
+        inter_layers = [
+            node.output[0] for node in model.graph.node if node.output[0] in debug_target
+        ]
         targets_indices = extract_targets_indices(model, inter_layers)
 
     # Add an output after each name of inter_layers
     value_info_protos = []
+    model_outputs = {output.name for output in model.graph.output}
     shape_info = onnx.shape_inference.infer_shapes(model)
-    for _idx, node in enumerate(shape_info.graph.value_info):
-        if node.name in inter_layers:
-            value_info_protos.append(node)
+    value_info = {info.name: info for info in shape_info.graph.value_info}
+    for name in inter_layers:
+        if name not in model_outputs:
+            value_info_protos.append(
+                value_info.get(name) or onnx.helper.make_empty_tensor_value_info(name),
+            )
 
     model.graph.output.extend(value_info_protos)  # in inference stage, these tensor will be added to output dict.
 
@@ -127,7 +159,6 @@ def debug_onnx(
         onnx.save(model, path)
 
     # Model inference
-    run_model = model if type(model) is str | Path else model.SerializeToString()
-    outputs = run_model_onnx(run_model, dataset)
+    outputs = run_model_onnx(model.SerializeToString(), dataset, inter_layers)
 
     return model, targets_indices, outputs
-- 
2.43.0


From d185d5d8161929363fa9caf14312d2c6f5108d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 65/88] fix: programs generated in debug mode do not build

The record of a layer reads its buffer in the context, is closed, holds enough digits for the values
read back to be exact, and is read in the layout of the model whatever that of the program. The layers
from 10 on are found in the results of the Python reference.
---
 src/acetone_nnet/debug/debug_tools.py         |  9 +++--
 .../generator/layers/input/Input.py           |  4 +++
 src/acetone_nnet/generator/neural_network.py  | 33 ++++++++++++++-----
 .../templates/template_source_file.c.tpl      |  7 ++--
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/debug/debug_tools.py b/src/acetone_nnet/debug/debug_tools.py
index 71423d4..9077cf9 100644
--- a/src/acetone_nnet/debug/debug_tools.py
+++ b/src/acetone_nnet/debug/debug_tools.py
@@ -120,7 +120,12 @@ def extract_outputs_c(
                     line = list(map(np.float32, line))
                 line = np.array(line)
 
-                if to_transpose:
+                if to_transpose == 2:
+                    # From channels last to channels first
+                    line = np.reshape(line, (*shape[1:], shape[0]))
+                    line = np.transpose(line, (2, 0, 1))
+                    line = line.flatten()
+                elif to_transpose:
                     line = np.reshape(line, shape)
                     line = np.transpose(line, (1, 2, 0))
                     line = line.flatten()
@@ -142,7 +147,7 @@ def extract_outputs_python(
     targets = []
     for indices in targets_indices:
         for i in range(len(result_python[1])):
-            if indices == int(result_python[1][i][-1]):
+            if indices == int(result_python[1][i].split(" ")[-1]):
                 outputs.append(result_python[0][i])
                 targets.append(result_python[1][i])
 
diff --git a/src/acetone_nnet/generator/layers/input/Input.py b/src/acetone_nnet/generator/layers/input/Input.py
index 0b3f31e..ad50233 100644
--- a/src/acetone_nnet/generator/layers/input/Input.py
+++ b/src/acetone_nnet/generator/layers/input/Input.py
@@ -44,6 +44,10 @@ class InputLayer(Layer):
         self.data_format = data_format
         self.input_shape = input_shape
         self.gen_data_format = gen_data_format
+        if len(input_shape) == 4:
+            self.output_channels = input_shape[1]
+            self.output_height = input_shape[2]
+            self.output_width = input_shape[3]
         self.name = "Input_layer"
         if original_name == "":
             self.original_name = f"{self.name}_{self.idx}"
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index b1864c4..b1c780f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -443,8 +443,12 @@ class CodeGenerator(ABC):
         return np.array(test_dataset)
 
     def _output_image_layer(self: Self) -> Any:
-        """Return the layer giving the model's output its shape (an activation keeps its input's)."""
-        layer = self.layers[-1]
+        """Return the layer giving the model's output its shape."""
+        return self._image_layer(self.layers[-1])
+
+    @staticmethod
+    def _image_layer(layer: Any) -> Any:
+        """Return the layer giving a layer's output its shape (an activation keeps its input's)."""
         while isinstance(layer, ActivationLayer) and layer.previous_layer:
             layer = layer.previous_layer[0]
         return layer
@@ -585,7 +589,7 @@ class CodeGenerator(ABC):
                             # Add the inference result of the layer to debug_output
                             debug_output.append(layer_output)
                             if (self.data_format == "channels_last") and hasattr(
-                                layer,
+                                self._image_layer(layer),
                                 "output_channels",
                             ):
                                 debug_output[-1] = np.transpose(
@@ -923,6 +927,13 @@ class CodeGenerator(ABC):
 
         if self.debug_mode in ["onnx", "keras"]:
             mustach_hash["debug_file"] = output_dir / "debug_file.txt"
+            # Enough digits for the values read back to be those of the program
+            if np.issubdtype(self.data_type_py, np.integer):
+                mustach_hash["debug_format"] = "%d"
+            else:
+                mustach_hash["debug_format"] = (
+                    "%.9g" if self.data_type == "float" else "%.17g"
+                )
 
         if self.debug_mode in ["time"]:
             mustach_hash["time"] = True
@@ -952,13 +963,17 @@ class CodeGenerator(ABC):
                 layer_hash["name"] = layer.name
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
-                if (self.data_format == "channels_last") and (
-                    hasattr(layer, "output_channels")
+                image_layer = self._image_layer(layer)
+                if (self.data_format != self.gen_data_format) and (
+                    hasattr(image_layer, "output_channels")
                 ):
-                    layer_hash["to_transpose"] = 1
-                    layer_hash["channels"] = layer.output_channels
-                    layer_hash["height"] = layer.output_height
-                    layer_hash["width"] = layer.output_width
+                    # 1: the record is to be read channels last, 2: channels first
+                    layer_hash["to_transpose"] = (
+                        1 if self.data_format == "channels_last" else 2
+                    )
+                    layer_hash["channels"] = image_layer.output_channels
+                    layer_hash["height"] = image_layer.output_height
+                    layer_hash["width"] = image_layer.output_width
 
             if self.debug_mode in ["time"]:
                 layer_hash["time"] = True
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index d6e6a15..1c13c96 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -17,7 +17,7 @@ unsigned long long int start, end, difference;
 
 int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{data_type}} nn_input[{{input_size}}]){
     {{#debug_file}}
-    FILE *fp = fopen("{{debug_file}}", "w+");
+    FILE *fp = fopen("{{{debug_file}}}", "w+");
 
     {{/debug_file}}
     {{#time}}
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"{{debug_format}} ", ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
@@ -130,5 +130,8 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+    {{#debug_file}}
+    fclose(fp);
+    {{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 058277f2f03ca552d499b20eacab158772a45070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 66/88] fix: the last value of lines of NNET files without a
 final comma is dropped

---
 .../importers/NNET_importer/parser_NNET.py    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/NNET_importer/parser_NNET.py b/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
index 4694fd9..2aab632 100644
--- a/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
+++ b/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
@@ -78,6 +78,11 @@ def generate_layers(
     return layers
 
 
+def values(line: str) -> list[str]:
+    """Return the values of a line, with or without a comma after the last one."""
+    return [value for value in line.strip().split(",") if value.strip()]
+
+
 def load_nnet(
         file_to_parse: str | Path,
         normalize: bool,
@@ -109,25 +114,25 @@ def load_nnet(
 
             # num_layers doesn't include the input layer!
         num_layers, input_size, output_size, max_layersize = (
-            int(x) for x in line.strip().split(",")[:-1]
+            int(x) for x in values(line)
         )
         line = f.readline()
 
         # input layer size, layer1size, layer2size...
-        layer_sizes = [int(x) for x in line.strip().split(",")[:-1]]
+        layer_sizes = [int(x) for x in values(line)]
 
         line = f.readline()
         line = f.readline()
-        input_minimums = [float(x) for x in line.strip().split(",")[:-1]]
+        input_minimums = [float(x) for x in values(line)]
 
         line = f.readline()
-        input_maximums = [float(x) for x in line.strip().split(",")[:-1]]
+        input_maximums = [float(x) for x in values(line)]
 
         line = f.readline()
-        means = [float(x) for x in line.strip().split(",")[:-1]]
+        means = [float(x) for x in values(line)]
 
         line = f.readline()
-        ranges = [float(x) for x in line.strip().split(",")[:-1]]
+        ranges = [float(x) for x in values(line)]
 
         weights = []
         biases = []
@@ -141,7 +146,7 @@ def load_nnet(
             # weights for non-conventional nnet
             for i in range(current_layer_size):
                 line = f.readline()
-                aux = [float(x) for x in line.strip().split(",")[:-1]]
+                aux = [float(x) for x in values(line)]
                 weights[layernum].append([])
                 for j in range(previous_layer_size):
                     weights[layernum][i].append(aux[j])
-- 
2.43.0


From e3d6ffd91b4f509e5d4fdd9ebfc8c14d85e96042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 67/88] fix: normalisation overwrites the input of the caller

Calling the inference twice on the same input normalised it twice.
---
 .../importers/NNET_importer/nnet_normalize.py         |  4 +---
 .../normalization/template_pre_processing.c.tpl       | 11 ++++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/NNET_importer/nnet_normalize.py b/src/acetone_nnet/importers/NNET_importer/nnet_normalize.py
index 01b9c3a..9ac3e6b 100644
--- a/src/acetone_nnet/importers/NNET_importer/nnet_normalize.py
+++ b/src/acetone_nnet/importers/NNET_importer/nnet_normalize.py
@@ -134,6 +134,4 @@ class Normalizer(ABC):
             nn_output: np.ndarray,
     ) -> np.ndarray:
         """Compute the output of the post-processing."""
-        for i in range(len(nn_output)):
-            nn_output[i] = nn_output[i] * self.ranges[-1] + self.means[-1]
-        return nn_output
+        return nn_output * self.ranges[-1] + self.means[-1]
diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..9f8d2a3 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,19 @@
-    // pre-processing for the normalization
+    // pre-processing for the normalization (the input of the caller is left as it is)
+    float normalized_input[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            normalized_input[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
-    
\ No newline at end of file
+    nn_input = normalized_input;
-- 
2.43.0


From b1e313b66bb88d18ac3473a6a04d2a8fe2a9e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 68/88] fix: products of quantised values overflow the type of
 the tensors

---
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 3 +++
 src/acetone_nnet/generator/neural_network.py              | 1 +
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index b066a6a..85bbd4c 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -53,6 +53,9 @@ class MatMulDefault(MatMul):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
+        # The products of quantised values only hold in the type of the accumulator
+        mustach_hash["temp_data_type"] = getattr(self, "temp_cdtype", None)
+
         mustach_hash["left_channels"] = self.input_shapes[0][1]
         mustach_hash["right_channels"] = self.input_shapes[1][1]
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index b1c780f..f57cbf3 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1173,6 +1173,7 @@ class CodeGenerator(ABC):
                     logging.info(f"Quantize {l.name}_{l.idx} format {l.qparam}")
                     l.temp_pydtype = self.target_cfg["quantization"]["temp_pydtype"]
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
+                    l.temp_cdtype = self.target_cfg["quantization"]["temp_dtype"]
 
                 except KeyError:
                     if hasattr(l, "weights") or hasattr(l, "biases"):
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 9035006..637f2a6 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*(f % {{left_channels}}))]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*(f % {{right_channels}}))];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += {{#temp_data_type}}({{temp_data_type}}) {{/temp_data_type}}ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*(f % {{left_channels}}))]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*(f % {{right_channels}}))];
                 }
             }
         }
-- 
2.43.0


From babddbb3124b8f8af04f0fcbff91e8884d48cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 69/88] fix: parameters with more than 63 fractional bits
 cannot be quantised

---
 src/acetone_nnet/generator/neural_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index f57cbf3..c520282 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1148,21 +1148,21 @@ class CodeGenerator(ABC):
 
                     (_, m) = qform.parse_q_format(l.qparam)
                     if hasattr(l, "weights"):
-                        weights = np.rint(l.weights * (2**m))
+                        weights = np.rint(l.weights * 2.0**m)
                         l.weights = weights.astype(
                             self.data_type_py,
                         )
                         if (weights != l.weights).all():
                             logging.warning("Weights MSB truncated")
                     if hasattr(l, "biases"):
-                        biases = np.rint(l.biases * (2**m))
+                        biases = np.rint(l.biases * 2.0**m)
                         l.biases = biases.astype(
                             self.data_type_py,
                         )
                         if (biases != l.biases).all():
                             logging.warning("Biases MSB truncated")
                     if hasattr(l, "constant") and l.constant is not None:
-                        constant = np.rint(l.constant * (2**m))
+                        constant = np.rint(l.constant * 2.0**m)
                         l.constant = constant.astype(
                             self.data_type_py,
                         )
-- 
2.43.0


From e6984f97b1baa946e0211bedfe1d75a14d084d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 70/88] fix: reference outputs of quantised pooling, resize and
 gather layers are floats

---
 .../generator/layers/gather_elements/GatherElements.py      | 2 +-
 src/acetone_nnet/generator/layers/pooling/Pooling2D.py      | 6 +++++-
 .../generator/layers/resize/resize_nearest/ResizeNearest.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index acd32da..cb63c26 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -145,7 +145,7 @@ class GatherElements(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
-        output = np.zeros((self.output_channels, self.output_height, self.output_width))
+        output = np.zeros((self.output_channels, self.output_height, self.output_width), dtype=input_array.dtype)
         for f in range(self.output_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 8e507dd..73762d2 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -143,7 +143,11 @@ class Pooling2D(Layer):
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
 
-        output = np.zeros((self.input_channels, self.output_height, self.output_width))
+        output = np.zeros(
+            (self.input_channels, self.output_height, self.output_width),
+            # Integers stay integers where the pooling function keeps them
+            dtype=self.pooling_function(input_array).dtype,
+        )
 
         # The padding takes no part in the maximum or in the average
         for c in range(self.input_channels):
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index 39865c2..39a6391 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -79,7 +79,7 @@ class ResizeNearest(Resize):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape(self.input_channels, self.input_height, self.input_width)
-        output = np.zeros((self.output_channels, self.output_height, self.output_width))
+        output = np.zeros((self.output_channels, self.output_height, self.output_width), dtype=input_array.dtype)
         for f in range(self.output_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
-- 
2.43.0


From 6a715054e1dd575fed78646cc53bfa6c5c96c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 71/88] fix: layers fused with their activation are not
 quantised

---
 src/acetone_nnet/generator/neural_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index c520282..8c47177 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1129,8 +1129,9 @@ class CodeGenerator(ABC):
         if self.target_cfg is not None:
             for l in self.layers:
                 try:
+                    # A layer fused with its activation keeps its formats
                     layer_qconf = self.target_cfg["quantization"]["layers"][
-                        l.original_name
+                        l.original_name.split(" fused with ")[0]
                     ]
                     if isinstance(l, ConstantLayer):
                         l.qparam = layer_qconf["out"]
-- 
2.43.0


From 7882b2cf3966df8503cc393178be8aab28595236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 72/88] fix: datasets read from files are refused for quantised
 targets

---
 src/acetone_nnet/generator/neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 8c47177..9b5523a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -439,7 +439,7 @@ class CodeGenerator(ABC):
                     break
                 contents = json.loads(line)
                 contents = [self.c2data(c) for c in contents]
-                test_dataset.append(list(map(dtype, contents)))
+                test_dataset.append(np.array(contents).astype(dtype))
         return np.array(test_dataset)
 
     def _output_image_layer(self: Self) -> Any:
-- 
2.43.0


From 10f364a0f74599b1f2e76590e115a25b6333b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 73/88] fix: the exporter writes operators and attributes under
 names ONNX does not have

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 36 +++++--------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index ad8e864..d8da4bb 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -144,11 +144,11 @@ def export_broadcast(
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
     """Export ACETONE broadcastable layer to an ONNX broadcastable layer (Add, Average, Divide, Maximum, Minimum, Multiply, Subtract)."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    op_type = broadcast_layer.name[:3]
+    op_type = "Mean" if isinstance(broadcast_layer, Average) else broadcast_layer.name[:3]
     initializer = []
 
     output_name, inputs_name = generate_input_output_name(broadcast_layer)
-    if broadcast_layer.constant is not None:
+    if getattr(broadcast_layer, "constant", None) is not None:
         constant_name = f"{broadcast_layer.name}_{broadcast_layer.idx}_constant"
         inputs_name.append(constant_name)
 
@@ -347,10 +347,10 @@ def export_gemm(
         op_type="Gemm",
         inputs=inputs_name,
         outputs=[output_name],
-        alpha=1 if not gemm_layer.alpha else gemm_layer.alpha[0],
-        beta=1 if not gemm_layer.beta else gemm_layer.beta[0],
-        transA=gemm_layer.transpo[0],
-        transB=gemm_layer.transpo[1],
+        alpha=float(gemm_layer.alpha[0]) if gemm_layer.alpha else 1.0,
+        beta=float(gemm_layer.beta[0]) if gemm_layer.beta else 1.0,
+        transA=int(gemm_layer.transpo[0]),
+        transB=int(gemm_layer.transpo[1]),
     )
 
     weight = create_initializer_tensor(
@@ -374,18 +374,8 @@ def export_matmul(
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
     """Export ACETONE MatMul layer to an ONNX MatMul layer."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    initializer = []
-
     output_name, inputs_name = generate_input_output_name(matmul_layer)
-    weight_name = f"{matmul_layer.name}_{matmul_layer.idx}_weight"
-    if matmul_layer.side == 1:
-        temp = [weight_name]
-        temp.extend(inputs_name)
-        inputs_name = temp
-    elif matmul_layer.side == 0:
-        inputs_name.append(weight_name)
-    else:
-        pass
+
     node = make_node(
         name=matmul_layer.original_name,
         op_type="MatMul",
@@ -393,17 +383,7 @@ def export_matmul(
         outputs=[output_name],
     )
 
-    if matmul_layer.weights is not None:
-        weight_value = matmul_layer.weights
-        weight_value = np.reshape(weight_value, (weight_value.shape[-2],weight_value.shape[-1]))
-        weight = create_initializer_tensor(
-            name=weight_name,
-            tensor_array=weight_value,
-            data_type=tensor_dtype,
-        )
-        initializer.append(weight)
-
-    return node, initializer
+    return node, []
 
 def export_pool(
         pool_layer: Pooling2D,
-- 
2.43.0


From c01ba4a80afaf5500b0207f4e45f870ee98cf0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 74/88] fix: the exporter writes indices and repetitions as
 floats

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index d8da4bb..5360d7a 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -296,8 +296,8 @@ def export_gather(
 
     indices = create_initializer_tensor(
         name=indices_name,
-        tensor_array=gather_layer.indices,
-        data_type=tensor_dtype,
+        tensor_array=gather_layer.indices.flatten(),
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [indices]
 
@@ -324,7 +324,7 @@ def export_gather_elements(
     indices = create_initializer_tensor(
         name=indices_name,
         tensor_array=gather_elements_layer.indices,
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [indices]
 
@@ -550,7 +550,7 @@ def export_tile(
     repeat = create_initializer_tensor(
         name=repeat_name,
         tensor_array=np.array(tile_layer.repeats),
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [repeat]
 
-- 
2.43.0


From 5ef3e25cece41d70c5b765d11a610da68045221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 75/88] fix: the exporter writes the pads of convolutions and
 pools in another order than ONNX

---
 .../ONNX_exporter/acetone_to_onnx_layer.py      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 5360d7a..4d7b545 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -209,9 +209,10 @@ def export_conv2d(
         inputs=inputs_name,
         outputs=[output_name],
         kernel_shape=(conv2d_layer.kernel_h, conv2d_layer.kernel_w),
-        pads=(conv2d_layer.pad_right, conv2d_layer.pad_left, conv2d_layer.pad_bottom, conv2d_layer.pad_top),
+        pads=(conv2d_layer.pad_top, conv2d_layer.pad_left, conv2d_layer.pad_bottom, conv2d_layer.pad_right),
         strides=(conv2d_layer.strides,conv2d_layer.strides),
         dilations=(conv2d_layer.dilation_rate, conv2d_layer.dilation_rate),
+        group=conv2d_layer.group,
     )
 
     weights = create_initializer_tensor(
@@ -404,7 +405,19 @@ def export_pool(
         outputs=[output_name],
         strides=(pool_layer.strides, pool_layer.strides),
         kernel_shape=(pool_layer.pool_size, pool_layer.pool_size),
-        pads=(pool_layer.pad_right, pool_layer.pad_left, pool_layer.pad_bottom, pool_layer.pad_top)
+        pads=(pool_layer.pad_top, pool_layer.pad_left, pool_layer.pad_bottom, pool_layer.pad_right),
+        # The last windows may reach beyond the padded input
+        ceil_mode=int(
+            any(
+                (length - 1) * pool_layer.strides + pool_layer.pool_size > padded
+                for length, padded in (
+                    (pool_layer.output_height,
+                     pool_layer.input_height + pool_layer.pad_top + pool_layer.pad_bottom),
+                    (pool_layer.output_width,
+                     pool_layer.input_width + pool_layer.pad_left + pool_layer.pad_right),
+                )
+            ),
+        ),
     )
 
     return node, []
-- 
2.43.0


From dbe2732358d5ace06102baac7fdbaab8bf327d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 76/88] fix: the exporter drops the axes of softmax, reduce,
 pad and resize layers

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 4d7b545..9636f72 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -434,6 +434,7 @@ def export_softmax(
         op_type="Softmax",
         inputs=inputs_name,
         outputs=[output_name],
+        axis=-1 if softmax_layer.one_dimension else softmax_layer.axis,
     )
 
     return node, []
@@ -447,9 +448,9 @@ def export_pad(
 
     output_name, inputs_name = generate_input_output_name(pad_layer)
     pads_name = f"{pad_layer.name}_{pad_layer.idx}_pads"
-    axes_name = f"{pad_layer.name}_{pad_layer.idx}_axes" if pad_layer.axes else ""
     constant_name = f"{pad_layer.name}_{pad_layer.idx}_constant" if pad_layer.constant_value is not None else ""
-    inputs_name.extend([pads_name, constant_name, axes_name])
+    # The pads are those of all axes
+    inputs_name.extend([pads_name, constant_name])
     node = make_node(
         name=pad_layer.original_name,
         op_type="Pad",
@@ -464,13 +465,6 @@ def export_pad(
         data_type=onnx.TensorProto.INT64,
     )
     initializer = [pads]
-    if pad_layer.axes :
-        axes = create_initializer_tensor(
-            name=axes_name,
-            tensor_array=np.array(pad_layer.axes),
-            data_type=onnx.TensorProto.INT64,
-        )
-        initializer.append(axes)
     if pad_layer.constant_value is not None:
         constant = create_initializer_tensor(
             name=constant_name,
@@ -490,13 +484,16 @@ def export_resize(
 
     output_name, inputs_name = generate_input_output_name(resize_layer)
     scale_name = f"{resize_layer.name}_{resize_layer.idx}_scale"
-    inputs_name.extend(["",scale_name,""])
+    output_shape = [1, resize_layer.output_channels, resize_layer.output_height, resize_layer.output_width]
+    input_shape = [1, resize_layer.input_channels, resize_layer.input_height, resize_layer.input_width]
+    # A scale which is the quotient of the sizes may not be representable
+    use_sizes = [o / i for o, i in zip(output_shape, input_shape)] == list(resize_layer.scale)
+    inputs_name.extend(["", "", scale_name] if use_sizes else ["", scale_name])
     node = make_node(
         name=resize_layer.original_name,
         op_type="Resize",
         inputs=inputs_name,
         outputs=[output_name],
-        axes=resize_layer.axes,
         coordinate_transformation_mode=resize_layer.coordinate_transformation_mode,
         cubic_coeff_a=resize_layer.cubic_coeff_a,
         exclude_outside=resize_layer.exclude_outside,
@@ -508,8 +505,8 @@ def export_resize(
 
     scale = create_initializer_tensor(
         name=scale_name,
-        tensor_array=np.array(resize_layer.scale),
-        data_type=tensor_dtype,
+        tensor_array=np.array(output_shape if use_sizes else resize_layer.scale),
+        data_type=onnx.TensorProto.INT64 if use_sizes else onnx.TensorProto.FLOAT,
     )
     initializer = [scale]
 
@@ -530,13 +527,13 @@ def export_reduce(
         op_type=reduce_layer.name,
         inputs=inputs_name,
         outputs=[output_name],
-        keepdims=reduce_layer.keepdims,
+        keepdims=1,  # all tensors have four dimensions
         noop_with_empty_axes=reduce_layer.noop_with_empty_axes,
     )
 
     axes = create_initializer_tensor(
         name=axes_name,
-        tensor_array=np.array(reduce_layer.axes),
+        tensor_array=np.array(reduce_layer.axes, dtype=np.int64),
         data_type=onnx.TensorProto.INT64,
     )
     initializer = [axes]
-- 
2.43.0


From bbc762feaf8d6ed7ada8c32401aee87ea115219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 77/88] fix: the exporter drops the parameters of activation
 layers

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 9636f72..9c59f2e 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -625,13 +625,31 @@ def export_activation(
         def silu(tensor: np.array) -> np.array:
             return tensor / (1 + np.exp(-tensor))
 
+    attributes = {}
+    initializer = []
+    if op_tye == "LeakyRelu":
+        attributes["alpha"] = float(activation_layer.activation_function.alpha)
+    elif op_tye == "Clip":
+        for bound in ("min", "max"):
+            bound_name = f"{activation_layer.name}_{activation_layer.idx}_clip_{bound}"
+            inputs_name.append(bound_name)
+            initializer.append(
+                create_initializer_tensor(
+                    name=bound_name,
+                    tensor_array=np.array(getattr(activation_layer.activation_function, bound)),
+                    data_type=tensor_dtype,
+                ),
+            )
+
     node = make_node(
         name=activation_layer.original_name,
         op_type=op_tye,
         inputs=inputs_name,
         outputs=[output_name],
+        **attributes,
     )
-    return node, []
+
+    return node, initializer
 
 ###### Dict of all the exporters ######
 list_exporters = {
-- 
2.43.0


From 85557ad7440aa635c6d9cd84c2e7c37c487ab7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 78/88] fix: the exporter writes Dense and Silu with operators
 which are not ONNX's

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 55 +++++++------------
 .../exporters/ONNX_exporter/exporter_onnx.py  |  4 +-
 2 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 9c59f2e..fac8d12 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -22,7 +22,6 @@
 import numpy as np
 import onnx
 from onnx.helper import make_node, make_tensor_value_info, np_dtype_to_tensor_dtype
-from onnxruntime_extensions import onnx_op
 
 from acetone_nnet import MatMul
 from acetone_nnet.generator.activation_functions import Linear
@@ -230,27 +229,22 @@ def export_dense(
         dense_layer: Dense,
         dtype_py:np.dtype,
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
-    """Export ACETONE dense layer to an ONNX dense layer.
-
-    The custom dense layer is made with onnxruntime_extension. (see: https://onnxruntime.ai/docs/extensions/add-op.html).
-    """
+    """Export ACETONE dense layer to an ONNX Gemm layer."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    @onnx_op(op_type="Dense",
-             inputs=[tensor_dtype,tensor_dtype,tensor_dtype],
-             outputs=[tensor_dtype])
-    def dense(tensor:np.array,weight:np.array,bias:np.array) -> np.array:
-        return np.dot(tensor,weight) + bias
+
 
     output_name, inputs_name = generate_input_output_name(dense_layer)
     weight_name = f"{dense_layer.name}_{dense_layer.idx}_weight"
     bias_name = f"{dense_layer.name}_{dense_layer.idx}_bias"
     inputs_name.extend([weight_name,bias_name])
     node = make_node(
-        "Dense", inputs_name, [output_name], name=dense_layer.original_name
+        "Gemm", inputs_name, [output_name], name=dense_layer.original_name
     )
 
     weights = create_initializer_tensor(
-        name=weight_name, tensor_array=dense_layer.weights, data_type=tensor_dtype,
+        name=weight_name,
+        tensor_array=dense_layer.weights.reshape(-1, dense_layer.size),
+        data_type=tensor_dtype,
     )
     biases = create_initializer_tensor(
         name=bias_name, tensor_array=dense_layer.biases, data_type=tensor_dtype,
@@ -606,6 +600,13 @@ def get_activation_op_type(activation_layer: ActivationLayer) -> str | None:
         case _:
             return None
 
+def make_silu_nodes(name: str, input_name: str, output_name: str) -> list[onnx.NodeProto]:
+    """Create the nodes computing a Silu, which is not an ONNX operator."""
+    return [
+        make_node("Sigmoid", [input_name], [f"{output_name}_sigmoid"], name=f"{name} (sigmoid)"),
+        make_node("Mul", [input_name, f"{output_name}_sigmoid"], [output_name], name=name),
+    ]
+
 def export_activation(
         activation_layer: ActivationLayer,
         dtype_py:np.dtype,
@@ -617,13 +618,8 @@ def export_activation(
     op_tye = get_activation_op_type(activation_layer)
 
     if op_tye == "Silu":
-        @onnx_op(
-            op_type="Silu",
-            inputs=[tensor_dtype],
-            outputs=[tensor_dtype],
-        )
-        def silu(tensor: np.array) -> np.array:
-            return tensor / (1 + np.exp(-tensor))
+        return make_silu_nodes(activation_layer.original_name, inputs_name[0], output_name), []
+
 
     attributes = {}
     initializer = []
@@ -722,27 +718,14 @@ def export_silu(
         layer: Layer,
         dtype_py:np.dtype,
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
-    """Export an ACETONE Silu activation function to an ONNX makeshift silu layer."""
-    tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    @onnx_op(
-        op_type="Silu",
-        inputs=[tensor_dtype],
-        outputs=[tensor_dtype],
-    )
-    def silu(tensor: np.array) -> np.array:
-        return tensor / (1 + np.exp(-tensor))
+    """Export an ACETONE Silu activation function to ONNX Sigmoid and Mul layers."""
 
     intput_name = f"{layer.name}_{layer.idx}_pre_activation"
     output_name= f"{layer.name}_{layer.idx}"
 
-    node = make_node(
-        name=f"Silu fonction from node {layer.original_name} ",
-        op_type="Silu",
-        inputs=[intput_name],
-        outputs=[output_name],
-    )
-
-    return node, []
+    return make_silu_nodes(
+        f"Silu fonction from node {layer.original_name} ", intput_name, output_name,
+    ), []
 
 def export_tanh(
         layer: Layer,
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index da9975c..f5403cf 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -55,7 +55,7 @@ def onnx_exporter(
         exporter = list_exporters.get(layer.name, None)
         if exporter is not None:
             node, initializer = exporter(layer, datatype_py)
-            nodes.append(node)
+            nodes.extend(node if isinstance(node, list) else [node])
             initializers.extend(initializer)
 
         if (hasattr(layer, "activation_function")
@@ -66,7 +66,7 @@ def onnx_exporter(
             activation_exporter = list_activation_exporters.get(layer.activation_function.name, None)
             if activation_exporter is not None:
                 node, initializer = activation_exporter(layer, datatype_py)
-                nodes.append(node)
+                nodes.extend(node if isinstance(node, list) else [node])
                 initializers.extend(initializer)
 
     graph = helper.make_graph(
-- 
2.43.0


From 5afa49e3eedd4333cd162732ff4fa1b04885081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 79/88] fix: the tensors of exported models do not have the
 shapes their layers read

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 70 ++++++++++++++-----
 .../exporters/ONNX_exporter/exporter_onnx.py  | 20 +++++-
 2 files changed, 69 insertions(+), 21 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index fac8d12..64a1bee 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -868,44 +868,76 @@ list_activation_exporters = {
     "silu": export_silu,
 }
 ###### Functions to define the inputs and outputs of the graph ######
+def get_read_shape(layer: Layer, position: int) -> list[int] | None:
+    """Give the shape in which a layer reads an operand (None when any will do)."""
+    if hasattr(layer, "input_shapes"):
+        return [int(i) for i in layer.input_shapes[position]]
+    if isinstance(layer, Gemm):
+        return [layer.input_height, layer.input_width]
+    if isinstance(layer, Dense):
+        return [1, layer.weights.size // layer.size]
+    if isinstance(layer, Softmax) and layer.one_dimension:
+        return [1, layer.size]
+    if isinstance(layer, (BatchNormalization, Softmax)):
+        return [1, layer.output_channels, layer.output_height, layer.output_width]
+    if isinstance(layer, (ConstantPad, EdgePad, ReflectPad, WrapPad)):
+        return [1, *layer.input_shape[1:]]
+    if hasattr(layer, "input_channels"):
+        return [1, layer.input_channels, layer.input_height, layer.input_width]
+    return None
+
+def get_exported_shape(layer: Layer, shapes: dict[int, list[int]]) -> list[int]:
+    """Give the shape of the tensor exported for a layer, given those of its operands."""
+    if isinstance(layer, InputLayer):
+        # The number of rows may be left open
+        return [int(i) if i else 1 for i in layer.input_shape]
+    if isinstance(layer, ActivationLayer):
+        return shapes[layer.previous_layer[0].idx]
+    if isinstance(layer, (Dense, Flatten)) or (isinstance(layer, Softmax) and layer.one_dimension):
+        return [1, layer.size]
+    if isinstance(layer, Gemm):
+        return [layer.output_height, layer.output_width]
+    return [1, layer.output_channels, layer.output_height, layer.output_width]
+
+def export_reshape(
+        layer: Layer,
+        position: int,
+        shape: list[int],
+) -> tuple[onnx.NodeProto, onnx.TensorProto]:
+    """Reshape an operand of a layer."""
+    operand = layer.previous_layer[position]
+    output_name = f"{layer.name}_{layer.idx}_operand_{position}"
+    node = make_node(
+        "Reshape", [f"{operand.name}_{operand.idx}", f"{output_name}_shape"], [output_name],
+    )
+    return node, create_initializer_tensor(
+        name=f"{output_name}_shape",
+        tensor_array=np.array(shape),
+        data_type=onnx.TensorProto.INT64,
+    )
+
 def export_input(
         input_layer: Layer,
         datatype_py:np.dtype,
 ) -> onnx.ValueInfoProto:
     """Export ACETONE Input layer to ONNX input value info."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(datatype_py.__name__))
-    shape = getattr(input_layer,"input_shape", None)
-    if type(shape) is not None:
-        for i in range(len(shape)):
-            if shape[i] is None:
-                shape[i] = 1
+
     return make_tensor_value_info(
         name=f"{input_layer.name}_{input_layer.idx}",
         elem_type=tensor_dtype,
-        shape=shape,
+        shape=get_exported_shape(input_layer, {}),
     )
 
 def export_output(
         output_layer: Layer,
         datatype_py:np.dtype,
+        shape: list[int],
 ) -> onnx.ValueInfoProto:
     """Export ACETONE Input layer to ONNX input value info."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(datatype_py.__name__))
 
-    shape = [1,1,1,1]
 
-    if isinstance(output_layer, Softmax) and output_layer.one_dimension:
-        axis = -1 if output_layer.axis is None else output_layer.axis
-        shape[axis] = output_layer.size
-    elif isinstance(output_layer, InputLayer):
-        shape = output_layer.input_shape
-    else:
-        if hasattr(output_layer, "output_channels"):
-            shape[1] = output_layer.output_channels
-        if hasattr(output_layer, "output_height"):
-            shape[2]  = output_layer.output_height
-        if hasattr(output_layer, "output_width"):
-            shape[3]  = output_layer.output_width
 
     return make_tensor_value_info(
         name=f"{output_layer.name}_{output_layer.idx}",
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index f5403cf..b296cc4 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -29,6 +29,9 @@ from acetone_nnet.ir import Layer
 from .acetone_to_onnx_layer import (
     export_input,
     export_output,
+    export_reshape,
+    get_exported_shape,
+    get_read_shape,
     list_activation_exporters,
     list_exporters,
 )
@@ -45,17 +48,30 @@ def onnx_exporter(
     inputs = []
     outputs = []
 
+    # Shapes of the exported tensors
+    shapes: dict[int, list[int]] = {}
+
     for layer in list_layer:
+        shapes[layer.idx] = get_exported_shape(layer, shapes)
         if not layer.previous_layer:
             inputs.append(export_input(layer, datatype_py))
 
         if not layer.next_layer:
-            outputs.append(export_output(layer, datatype_py))
+            outputs.append(export_output(layer, datatype_py, shapes[layer.idx]))
 
         exporter = list_exporters.get(layer.name, None)
         if exporter is not None:
             node, initializer = exporter(layer, datatype_py)
-            nodes.extend(node if isinstance(node, list) else [node])
+            node = node if isinstance(node, list) else [node]
+            # Layers do not always read a tensor in the shape it is written
+            for i, operand in enumerate(layer.previous_layer):
+                shape = get_read_shape(layer, i)
+                if shape is not None and shape != shapes[operand.idx]:
+                    reshape, shape_initializer = export_reshape(layer, i, shape)
+                    node[0].input[i] = reshape.output[0]
+                    nodes.append(reshape)
+                    initializers.append(shape_initializer)
+            nodes.extend(node)
             initializers.extend(initializer)
 
         if (hasattr(layer, "activation_function")
-- 
2.43.0


From 217bbc2e5ccdc811c88d5af58e438076933eabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 80/88] fix: the exporter cannot export models with constant
 operands

---
 .../ONNX_exporter/acetone_to_onnx_layer.py        | 15 +++++++++++++++
 .../exporters/ONNX_exporter/exporter_onnx.py      | 13 +++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 64a1bee..345320a 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -31,6 +31,7 @@ from acetone_nnet.generator.layers import (
     Average,
     BatchNormalization,
     Concatenate,
+    ConstantLayer,
     ConstantPad,
     Conv2D,
     Dense,
@@ -916,6 +917,20 @@ def export_reshape(
         data_type=onnx.TensorProto.INT64,
     )
 
+def export_constant(
+        layer: Layer,
+        position: int,
+        shape: list[int],
+        datatype_py:np.dtype,
+) -> onnx.TensorProto:
+    """Export a constant operand of a layer to an ONNX initializer."""
+    constant_layer: ConstantLayer = layer.previous_layer[position]
+    return create_initializer_tensor(
+        name=f"{constant_layer.name}_{constant_layer.idx}_{layer.name}_{layer.idx}_operand_{position}",
+        tensor_array=np.reshape(constant_layer.constant, shape),
+        data_type=np_dtype_to_tensor_dtype(np.dtype(datatype_py.__name__)),
+    )
+
 def export_input(
         input_layer: Layer,
         datatype_py:np.dtype,
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index b296cc4..7ffdff7 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -23,10 +23,11 @@ import onnx
 from onnx import helper
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import ActivationLayer, ConstantLayer
 from acetone_nnet.ir import Layer
 
 from .acetone_to_onnx_layer import (
+    export_constant,
     export_input,
     export_output,
     export_reshape,
@@ -52,6 +53,10 @@ def onnx_exporter(
     shapes: dict[int, list[int]] = {}
 
     for layer in list_layer:
+        if isinstance(layer, ConstantLayer):
+            # Constants are exported as operands of the layers reading them
+            shapes[layer.idx] = list(np.shape(layer.constant))
+            continue
         shapes[layer.idx] = get_exported_shape(layer, shapes)
         if not layer.previous_layer:
             inputs.append(export_input(layer, datatype_py))
@@ -66,7 +71,11 @@ def onnx_exporter(
             # Layers do not always read a tensor in the shape it is written
             for i, operand in enumerate(layer.previous_layer):
                 shape = get_read_shape(layer, i)
-                if shape is not None and shape != shapes[operand.idx]:
+                if isinstance(operand, ConstantLayer):
+                    constant = export_constant(layer, i, shape or shapes[operand.idx], datatype_py)
+                    node[0].input[i] = constant.name
+                    initializers.append(constant)
+                elif shape is not None and shape != shapes[operand.idx]:
                     reshape, shape_initializer = export_reshape(layer, i, shape)
                     node[0].input[i] = reshape.output[0]
                     nodes.append(reshape)
-- 
2.43.0


From 14dcc92ef80a09ae666451057a1928ecf493dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:47 +0000
Subject: [PATCH 81/88] fix: Resize models giving the aspect ratio policy are
 refused

---
 src/acetone_nnet/generator/layers/resize/Resize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index 67122c4..53ae301 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -70,7 +70,10 @@ class Resize(Layer):
         self.size = size
         self.axes = axes
         self.exclude_outside = exclude_outside
-        self.keep_aspect_ratio_policy = keep_aspect_ratio_policy
+        if type(keep_aspect_ratio_policy) is bytes:
+            self.keep_aspect_ratio_policy = keep_aspect_ratio_policy.decode()
+        else:
+            self.keep_aspect_ratio_policy = keep_aspect_ratio_policy
         self.roi = roi
         self.name = "Resize"
         if original_name == "":
-- 
2.43.0


From 696f9a42255e59b575ffa851be51cd2ff3ebb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 82/88] fix: GlobalAveragePool, Resize and Reduce of tensors of
 more than four dimensions are computed on four of them

---
 .../importers/ONNX_importer/create_layer.py       | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b5dc8f5..e0ef8fc 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -182,6 +182,14 @@ def get_shape(
     return shape
 
 
+def check_rank(node: onnx.NodeProto, shape: list[int]) -> None:
+    """Refuse tensors of more than four dimensions."""
+    max_rank = 4
+    if len(shape) > max_rank:
+        msg = f"Error: {node.op_type} of a tensor of {len(shape)} dimensions not implemented"
+        raise ValueError(msg)
+
+
 # Return the size of the layer when given the list output_shape
 def find_size(output_shape: list) -> int:
     """Compute the size of a tensor."""
@@ -430,6 +438,7 @@ def create_resize(
 ) -> ResizeCubic | ResizeLinear | ResizeNearest:
     """Create a Resize layer."""
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = [node.input[0]]
@@ -859,6 +868,7 @@ def create_reduce_sum(
     onnx_version_change_implementation = 13
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -913,6 +923,7 @@ def create_reduce_max(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -967,6 +978,7 @@ def create_reduce_min(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1021,6 +1033,7 @@ def create_reduce_mean(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1075,6 +1088,7 @@ def create_reduce_prod(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1211,6 +1225,7 @@ def create_global_average_pool(
 ) -> AveragePooling2D:
     """Create a GlobalAveragePool layer."""
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = node.input
-- 
2.43.0


From 1d647a4f52251b0c0ddb0544d18582f340a86469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:29 +0000
Subject: [PATCH 83/88] fix: the flags of a target are added to the lists given
 by the caller

---
 src/acetone_nnet/generator/neural_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 9b5523a..76b93a5 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -773,8 +773,8 @@ class CodeGenerator(ABC):
         template = TemplateMakefile(
             self.function_name,
             compiler=properties["compiler"],
-            compiler_flags=properties["compiler_flags"],
-            linker_flags=properties["linker_flags"],
+            compiler_flags=list(properties["compiler_flags"]),
+            linker_flags=list(properties["linker_flags"]),
             header_files=header_files,
             source_files=source_files,
         )
-- 
2.43.0


From bada245c82b4f5383b77a372a8b7f3cfd901957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:42 +0000
Subject: [PATCH 84/88] fix: Resize models leaving out their mode are refused

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e0ef8fc..1da117b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -413,6 +413,8 @@ def resize_set_default_attributes_values(
             axe = attributes["axes"][i]
             if axe < 0:
                 axe = len(input_shape) - axe
+    if "mode" not in attributes:
+        attributes["mode"] = b"nearest"
     if "coordinate_transformation_mode" not in attributes:
         attributes["coordinate_transformation_mode"] = "half_pixel"
     if "exclude_outside" not in attributes:
-- 
2.43.0


From b5be12538448e055e71c21e3fdedefce6f862838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:42 +0000
Subject: [PATCH 85/88] fix: tensors whose shape is not given are taken as
 single values

---
 .../importers/ONNX_importer/parser_ONNX.py    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 5975f95..d032971 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -78,6 +78,22 @@ def remove_dead_layers(layers: list[Layer], output: Layer) -> list[Layer]:
     return [layer for layer in layers if layer.idx in live]
 
 
+def unknown_shapes(model: onnx.ModelProto) -> list[str]:
+    """List the tensors computed by the nodes whose size is not known."""
+    known = {
+        info.name
+        for info in (*model.graph.value_info, *model.graph.output)
+        if info.type.tensor_type.HasField("shape")
+        and all(dim.dim_value for dim in info.type.tensor_type.shape.dim[1:])
+    }
+    # Constants hold their shape
+    return [
+        node.output[0]
+        for node in model.graph.node
+        if node.op_type != "Constant" and node.output[0] not in known
+    ]
+
+
 def load_onnx(
     file_to_parse: Path | str | onnx.ModelProto
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -89,13 +105,18 @@ def load_onnx(
         else file_to_parse
     )
 
-    if not model.graph.value_info:
+    if unknown_shapes(model):
         model = onnx.shape_inference.infer_shapes(model)
     elif model is file_to_parse:
         # The model of the caller is not to be modified
         model = onnx.ModelProto()
         model.CopyFrom(file_to_parse)
 
+    unknown = unknown_shapes(model)
+    if unknown:
+        msg = f"Error: shapes of {', '.join(unknown)} are not known\n"
+        raise ValueError(msg)
+
     # The list of layers
     layers: list[Layer] = []
     # Dictionary of the outputs of each layer
-- 
2.43.0


From f3936a423bf293e3337de737deaf17809948f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:42 +0000
Subject: [PATCH 86/88] fix: optional inputs left out with an empty name are
 read as parameters

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index d032971..dfc791b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -117,6 +117,11 @@ def load_onnx(
         msg = f"Error: shapes of {', '.join(unknown)} are not known\n"
         raise ValueError(msg)
 
+    # Optional inputs may be left out by giving them empty names
+    for node in model.graph.node:
+        while node.input and not node.input[-1]:
+            node.input.pop()
+
     # The list of layers
     layers: list[Layer] = []
     # Dictionary of the outputs of each layer
-- 
2.43.0


From ff72f4005b032963b795cba1a7fe8c85b35bf869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:04 +0000
Subject: [PATCH 87/88] fix: additions in place of PyTorch programs leave the
 views of the tensor as they were

---
 .../importers/PYTORCH_importer/parse_pytorch.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 1222ef2..ccc1bb8 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -170,10 +170,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
         this_layer.previous_layer.append(previous)
         self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
         self.idx+=1
-        if node.target.__name__.split(".")[0].endswith("_"): # the input has been overwritten
-            for n, (layer, shape) in self.layerdic.items():
-                if layer is previous:
-                    self.layerdic[n] = (this_layer, shape)
+        self._overwrite(node, previous, this_layer)
+
+    def _overwrite(self, node: torch.fx.Node, previous: Layer, layer: Layer) -> None:
+        """Have the tensor computed in place, and its other names, stand for the new layer."""
+        if node.target.__name__.split(".")[0].endswith("_"):
+            for n, (named, shape) in self.layerdic.items():
+                if named is previous:
+                    self.layerdic[n] = (layer, shape)
 
     def _same_value(self, node: torch.fx.Node, values: list[int]) -> int:
         """Return the value of an attribute which has to be the same along both dimensions."""
@@ -309,6 +313,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 for i in range(len(node.args)):
                     self.layerdic[node.args[i].name][0].next_layer.append(this_layer)
                     this_layer.previous_layer.append(self.layerdic[node.args[i].name][0])
+                self._overwrite(node, self.layerdic[node.args[0].name][0], this_layer)
                 self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
                 self.idx+=1
             else:
-- 
2.43.0


From d0643bd8c0e8e90795e87056bc02c5518a943cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:04 +0000
Subject: [PATCH 88/88] fix: the library saves and replaces only a part of the
 weights held in Winograd's layout

---
 src/acetone_nnet/generator/neural_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 76b93a5..e1937c9 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -479,7 +479,9 @@ class CodeGenerator(ABC):
         for layer in self.layers:
             if (w := getattr(layer, "weights", None)) is not None and layer.nb_weights > 0:
                 memcpy_names.append(f"weights_{layer.name}_{layer.idx:02d}")
-                sizes.append(layer.nb_weights)
+                # As held by the program, in the layout of the implementation
+                layout = getattr(layer, "layout", None)
+                sizes.append(layer.nb_weights if layout is None else layout.size)
             if isinstance(layer, ConstantLayer) and layer.constant.size > 0:
                 memcpy_names.append(f"weights_{layer.name}_{layer.idx:02d}")
                 sizes.append(layer.constant.size)
-- 
2.43.0

