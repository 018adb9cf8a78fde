From d5709158648983dc8b1db0e7a8f7a8a4fdfd3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 01/62] fix: in-place scalar subtraction and multiplication of
 tensors call existing functions

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9900ba0 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From 3605adf7bab166c199643535fa6a85818a11f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 02/62] fix: reject shapes whose element count does not fit in
 size_t

---
 smart_dnn/Shape/Shape.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..1286db0 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -2,9 +2,11 @@
 #define SHAPE_HPP
 
 #include <iostream>
+#include <limits>
 #include <numeric>
 #include <vector>
 #include <sstream>
+#include <stdexcept>
 
 struct Shape {
     ~Shape() = default;
@@ -108,7 +110,12 @@ private:
     std::vector<size_t> _stride;
 
     size_t calculateSize() const {
-        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), std::multiplies<size_t>());
+        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), [](size_t size, int dim) {
+            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
+                throw std::overflow_error("Shape size exceeds maximum representable value");
+            }
+            return size * static_cast<size_t>(dim);
+        });
     }
 
     std::vector<size_t> calculateStride() const {
-- 
2.43.0


From 0941ccc792625dc42f4d41eba0fbedde050d4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 03/62] fix: tensor construction from value lists and vectors

---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         |  8 +++++++-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 13 +++++++------
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9900ba0..0011c37 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..0a26a56 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -24,7 +24,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
@@ -63,6 +63,12 @@ public:
 private:
     Shape shape_;
     std::unique_ptr<T[]> data_;
+
+    void checkValueCount(size_t count) const {
+        if (count > shape_.size()) {
+            throw std::invalid_argument("Too many values for tensor of shape " + shape_.toString() + ": " + std::to_string(count));
+        }
+    }
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..641f6e5 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,20 +38,21 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::move(values.begin(), values.end(), data_.get());
 }
 
-- 
2.43.0


From cf7f32e4d367332a57914b326d92d5ed38c1e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 04/62] fix: tensor move assignment leaves the source a valid
 tensor

---
 smart_dnn/Tensor/Tensor.hpp      | 2 +-
 smart_dnn/Tensor/Tensor.impl.hpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4fc6dc6..5d10153 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 0011c37..775954d 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -45,6 +45,15 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    if (this != &other) {
+        data_ = std::move(other.data_);
+        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    }
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From 16a2ce88b118e52cb7b6b64f824eff55f04c07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 05/62] fix: Tensor::slice returns an independent copy of the
 selected elements

---
 smart_dnn/Tensor/Tensor.impl.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 775954d..aa98ab8 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -295,17 +295,33 @@ void Tensor<T, DeviceType>::reshape(const std::initializer_list<int>& dims) {
 
 template <typename T, typename DeviceType>
 Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
-    Shape newShape = this->data_.shape();
-    std::vector<int> shape = newShape.getDimensions();
-    const std::vector<size_t> strides = this->data_.stride();
+    std::vector<int> shape = this->data_.shape().getDimensions();
 
-    int offset = index * strides[dim];
+    if (dim < 0 || dim >= static_cast<int>(shape.size())) {
+        throw std::out_of_range("Invalid dimension for slice: " + std::to_string(dim));
+    }
+    if (index < 0 || index >= shape[dim]) {
+        throw std::out_of_range("Index out of bounds for slice: " + std::to_string(index));
+    }
+
+    // The tensor is laid out as (outer, dim, inner): copy the selected inner block of every outer index.
+    const size_t inner = this->data_.stride()[dim];
+    const size_t block = inner * static_cast<size_t>(shape[dim]);
+    const size_t outer = this->data_.size() / block;
 
     shape.erase(shape.begin() + dim);
+    if (shape.empty()) {
+        shape.push_back(1);
+    }
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    Tensor<T, DeviceType> result{Shape(shape)};
+    const T* source = this->data_.data() + index * inner;
+    T* target = result.data_.data();
+    for (size_t i = 0; i < outer; ++i) {
+        std::copy_n(source + i * block, inner, target + i * inner);
+    }
 
-    return Tensor<T, DeviceType>(std::move(slicedData));
+    return result;
 }
 
 TEMPLATE_TENSOR
-- 
2.43.0


From 84bb03fa36d77728d785e743d670c4b540410965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 06/62] fix: a broadcast view does not drop leading dimensions
 of its source

---
 smart_dnn/Tensor/BroadcastView.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smart_dnn/Tensor/BroadcastView.hpp b/smart_dnn/Tensor/BroadcastView.hpp
index ec2590b..3da4852 100644
--- a/smart_dnn/Tensor/BroadcastView.hpp
+++ b/smart_dnn/Tensor/BroadcastView.hpp
@@ -39,6 +39,13 @@ private:
             --broadcast_dim;
             --orig_dim;
         }
+
+        // Dimensions the target does not have can only be dropped if they have size 1
+        for (; orig_dim >= 0; --orig_dim) {
+            if (orig_shape[orig_dim] != 1) {
+                throw std::runtime_error("Cannot broadcast shape " + orig_shape.toString() + " to lower rank " + broadcasted_shape_.toString());
+            }
+        }
     }
 
     int mapIndex(const std::vector<int>& indices) const {
-- 
2.43.0


From f020cda073aebba48095653e5d2d6bd0f803936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 07/62] fix: slice views honour the end of each range and
 reject non-positive steps

---
 smart_dnn/Tensor/SliceView.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..cea7afc 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,12 +16,14 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int length = end_indices_[i] - start_indices_[i];
+            int dim_size = (length > 0) ? (length - 1) / step_sizes_[i] + 1 : 0;
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
@@ -46,8 +48,15 @@ public:
         }
 
         start_indices_.reserve(slices.size());
+        end_indices_.reserve(slices.size());
         step_sizes_ = steps;
 
+        for (int step : steps) {
+            if (step <= 0) {
+                throw std::invalid_argument("Slice steps must be positive");
+            }
+        }
+
         for (size_t i = 0; i < slices.size(); ++i) {
             int start = slices[i].first;
             int end = slices[i].second;
@@ -56,10 +65,11 @@ public:
             if (end < 0) end += tensor.shape()[i];
             if (end > tensor.shape()[i]) end = tensor.shape()[i];
 
-            start = std::max(0, std::min(start, tensor.shape()[i] - 1));
+            start = std::max(0, std::min(start, tensor.shape()[i]));
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From 95816700a4ee476251a7d4f56f59eafe0a8850ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 08/62] fix: summing over all axes yields a tensor of shape (1)

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..1c47858 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -87,6 +87,9 @@ class AdvancedTensorOperations<T, CPUDevice> {
                 finalShape.push_back(newShape[i]);
             }
         }
+        if (finalShape.empty()) {
+            finalShape.push_back(1);  // Everything was summed
+        }
 
         result.reshape(Shape(finalShape));
 
-- 
2.43.0


From f02a371a1ad8c3760fe6b8f2091d56bf16024b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 09/62] fix: transpose threads do not share their index buffers

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 1c47858..3807205 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -218,12 +218,13 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
+
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-- 
2.43.0


From 2bbd14c03c1783e46acd05a1e6b3f84dcfea4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 10/62] fix: random tensors draw from the shared engine
 sequentially

---
 smart_dnn/Tensor/TensorOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..95253d5 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -302,7 +302,7 @@ public:
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
         
-        #pragma omp parallel for
+        // The random engine is shared state: draw sequentially
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From 89dea4eca118cf1682e9e243184666097f3ad84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 11/62] fix: mean rejects out-of-range axes even if their
 number equals the rank

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 3807205..8e61821 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -103,6 +103,12 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
+        for (size_t axis : axes) {
+            if (axis >= tensor.getShape().rank()) {
+                throw std::invalid_argument("Invalid axis for mean calculation");
+            }
+        }
+
         if (axes.empty() || axes.size() == tensor.getShape().rank()) {
             return mean(tensor);
         }
-- 
2.43.0


From 9d75a5e8f92852187e51c11525582573746688d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 12/62] fix: Sigmoid evaluates in the tensor's element type

---
 smart_dnn/Activations/Sigmoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 0c7665a..57bf66f 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -20,7 +20,7 @@ class Sigmoid : public Activation<T> {
     using TensorType = Tensor<T>;
 public:
     TensorType forward(const TensorType& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](float x) { return T(1) / (T(1) + std::exp(-x)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return T(1) / (T(1) + std::exp(-x)); });
     }
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
-- 
2.43.0


From e08e91cd3e7dfc452b9b4e48bbe5ad1172a44d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 13/62] fix: Tanh does not overflow for large inputs

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From 23dc03e74edb76c217a63539da584a8e61d8b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 14/62] fix: Softmax backward rejects gradients of another
 shape

---
 smart_dnn/Activations/Softmax.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 1990016..5719ad7 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -60,6 +60,9 @@ public:
         if (input.getShape().rank() < 2 || gradOutput.getShape().rank() < 2) {
             throw std::invalid_argument("Input and gradOutput must have at least 2 dimensions (batch_size, features)");
         }
+        if (input.getShape() != gradOutput.getShape()) {
+            throw std::invalid_argument("Input and gradOutput must have the same shape");
+        }
         
         Tensor<T> forwardOutput = forward(input);
         Tensor<T> gradInput(input.getShape());
-- 
2.43.0


From 26977631fae4c510b3b44fcd836be5109f6262db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 15/62] fix: activation gradients reject upstream gradients of
 another shape

---
 smart_dnn/Activations/ReLU.hpp    | 3 ++-
 smart_dnn/Activations/Sigmoid.hpp | 3 ++-
 smart_dnn/Activations/Tanh.hpp    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Activations/ReLU.hpp b/smart_dnn/Activations/ReLU.hpp
index 6b0df99..39454c7 100644
--- a/smart_dnn/Activations/ReLU.hpp
+++ b/smart_dnn/Activations/ReLU.hpp
@@ -23,7 +23,8 @@ public:
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return x > T(0) ? T(1) : T(0); }) * gradOutput;
+        return AdvancedTensorOperations<T>::applyPair(input, gradOutput,
+            [](T x, T grad) { return (x > T(0) ? T(1) : T(0)) * grad; });
     }
 };
 
diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 57bf66f..70e6767 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -25,7 +25,8 @@ public:
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
         TensorType sig = forward(input);
-        return sig * (T(1) - sig) * gradOutput;
+        return AdvancedTensorOperations<T>::applyPair(sig, gradOutput,
+            [](T s, T grad) { return s * (T(1) - s) * grad; });
     }
 };
 
diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 5ce1bbb..3f39b93 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -24,7 +24,8 @@ public:
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) {  return T(1) - std::tanh(x) * std::tanh(x);  }) * gradOutput;
+        return AdvancedTensorOperations<T>::applyPair(input, gradOutput,
+            [](T x, T grad) { return (T(1) - std::tanh(x) * std::tanh(x)) * grad; });
     }
 };
 
-- 
2.43.0


From 60848e76bbad0af326dcf7f89e84705753cf1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 16/62] fix: the cross-entropy gradient is the derivative of
 the cross-entropy

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..d8e4a3b 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -62,7 +62,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From 7c8fe4e0d47253730ffaeac344ae4cc859077084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 17/62] fix: cross-entropy rejects predictions that are not
 two-dimensional

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index d8e4a3b..3a42d1e 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -26,6 +26,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
@@ -52,6 +55,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
-- 
2.43.0


From 337c3f375aa77fa107fad0aca928e1be2c13c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 18/62] fix: the input gradient of a fully connected layer has
 the input's shape

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..0c7a3ad 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -84,6 +84,10 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        if ((*input).getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, (*input).getShape());
+        }
+
         return gradInput;
     }
 
-- 
2.43.0


From eadbd75969f762358646ae0c73f7a6e33b026644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 19/62] fix: Conv2D forward sums over all input channels

---
 smart_dnn/Layers/Conv2DLayer.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..c9467db 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -56,13 +56,15 @@ public:
             for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
-                        float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        T sum = T(0);
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh + kh;
+                                    int iw = ow + kw;
+                                    sum += inputData.at({b, ic, ih, iw}) * 
+                                        weightData.at({oc, ic, kh, kw});
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
-- 
2.43.0


From 174294983ab3c4efdb89a23f1750fca70f3fa6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 20/62] fix: Conv2D backward covers the whole batch and all
 channels

---
 smart_dnn/Layers/Conv2DLayer.hpp | 40 ++++++++++++--------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index c9467db..b972511 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -99,35 +99,25 @@ public:
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
-        // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
-            }
-        }
+        TensorType gradInput(inputShape, T(0));
 
-        // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                     for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
-                    }
-                }
-                weightGradients->at({0, 0, kh, kw}) = sum;
-            }
-        }
+                        const T grad = gradOutput.at({b, oc, oh, ow});
+                        biasGradients->at({oc, 0}) += grad;
 
-        // Compute input gradients
-        TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh + kh;
+                                    int iw = ow + kw;
+                                    weightGradients->at({oc, ic, kh, kw}) += inputTensor.at({b, ic, ih, iw}) * grad;
+                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * grad;
+                                }
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 4d7bd005b678bcbbcce7040400676d69b7fd613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 21/62] fix: Conv2D honours stride, padding and dilation and
 rejects kernels that do not fit

---
 smart_dnn/Layers/Conv2DLayer.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index b972511..b8d349b 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -43,8 +43,8 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int outputHeight = outputExtent(inputHeight, kernelHeight);
+        int outputWidth = outputExtent(inputWidth, kernelWidth);
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -60,8 +60,9 @@ public:
                         for (int ic = 0; ic < inputChannels; ++ic) {
                             for (int kh = 0; kh < kernelHeight; ++kh) {
                                 for (int kw = 0; kw < kernelWidth; ++kw) {
-                                    int ih = oh + kh;
-                                    int iw = ow + kw;
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) continue;
                                     sum += inputData.at({b, ic, ih, iw}) * 
                                         weightData.at({oc, ic, kh, kw});
                                 }
@@ -111,8 +112,9 @@ public:
                         for (int ic = 0; ic < inputChannels; ++ic) {
                             for (int kh = 0; kh < kernelHeight; ++kh) {
                                 for (int kw = 0; kw < kernelWidth; ++kw) {
-                                    int ih = oh + kh;
-                                    int iw = ow + kw;
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
                                     weightGradients->at({oc, ic, kh, kw}) += inputTensor.at({b, ic, ih, iw}) * grad;
                                     gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * grad;
                                 }
@@ -180,6 +182,14 @@ private:
     int padding;
     int dilation;
 
+    int outputExtent(int inputExtent, int kernelExtent) const {
+        int room = inputExtent + 2 * padding - dilation * (kernelExtent - 1) - 1;
+        if (room < 0) {
+            throw std::invalid_argument("Conv2DLayer: kernel does not fit the padded input");
+        }
+        return room / stride + 1;
+    }
+
     void initializeWeights() {
         weights = TensorType::rand({outputChannels, inputChannels, kernelHeight, kernelWidth});
         biases = TensorType::zeros({outputChannels, 1});
-- 
2.43.0


From c991490474e135d8ad9458ad40216667fc22a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 22/62] fix: MaxPooling2D honours padding and rejects pools
 that do not fit

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..210a913 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -29,8 +29,11 @@ public:
         int inputWidth = input.getShape()[3];
 
         // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        if (padding >= poolSize || inputHeight + 2 * padding < poolSize || inputWidth + 2 * padding < poolSize) {
+            throw std::invalid_argument("MaxPooling2DLayer: pool does not fit the padded input");
+        }
+        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -88,10 +91,12 @@ private:
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue;
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue;
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From b2a41d9a2687b130c45c8f2de4c1ab82894dc9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 23/62] fix: batch normalization keeps running statistics per
 feature

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..ed815ab 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -40,8 +40,8 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            runningMean = (momentum * runningMean) + ((1 - momentum) * reshapeForBroadcast(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * reshapeForBroadcast(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
-- 
2.43.0


From 54850fc12d3e882bc6057720113e7e9c3457d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 24/62] fix: batch normalization does not read past the end of
 a rank-1 shape

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index ed815ab..3eaa37a 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -123,7 +123,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = numFeatures;  // Preserve the channel dimension
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From 12cdd041c7f58d873ebc430e1e16f76bdeb3f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 25/62] fix: the batch normalization input gradient is exact

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 3eaa37a..ea8d428 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -62,7 +62,7 @@ public:
 
         const auto& inputShape = gradOutput.getShape();
         
-        int batchSize = inputShape[0];
+        int samplesPerFeature = inputShape.size() / numFeatures;
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -78,7 +78,7 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        dVariance = dVariance * T(-0.5) * invStdDev;
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
@@ -86,8 +86,8 @@ public:
 
         
         TensorType dInput = dNormalized * invStdDev +
-                            dVariance * T(2) * (*normalizedInput) / T(batchSize) +
-                            dMean / T(batchSize);
+                            dVariance * T(2) * (*normalizedInput) / T(samplesPerFeature) +
+                            dMean / T(samplesPerFeature);
 
         gammaGrad = dGamma;
         betaGrad = dBeta;
-- 
2.43.0


From 8077df7e9fa70a074499631a52ecf9534036bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 26/62] fix: dropout keeps each unit with probability 1-p

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..74fc3c4 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -3,6 +3,7 @@
 
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Layer.hpp"
+#include "smart_dnn/RandomEngine.hpp"
 
 namespace smart_dnn {
 
@@ -14,8 +15,10 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            mask = TensorType(input.getShape());
+            for (size_t i = 0; i < input.getShape().size(); ++i) {
+                mask->getData()[i] = T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0);
+            }
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
-- 
2.43.0


From 1f2d499c08f0dd61c6a5aba031bda1249bb56c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 27/62] fix: dropout backward rescales like forward

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 74fc3c4..8eb2535 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -30,7 +30,7 @@ public:
             throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
         }
         if (this->trainingMode) {
-            return gradOutput * (*mask);
+            return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
         }
         return gradOutput;
     }
-- 
2.43.0


From a6ddc3492604611650e1ca2c779b9326f7eeea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 28/62] fix: dropout backward checks its mask in training mode
 only

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 8eb2535..cf887b3 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -26,10 +26,10 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
-        }
         if (this->trainingMode) {
+            if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+                throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+            }
             return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
         }
         return gradOutput;
-- 
2.43.0


From ac9ce363ae56435bcf68d1b8a2556a00b4643358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 29/62] fix: flatten rejects backward before forward

---
 smart_dnn/Layers/FlattenLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..552280a 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -48,6 +48,9 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("FlattenLayer: forward must be called before backward");
+        }
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From 102332dd1f9178d5f0396e7d7e2b5a1f832ef750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 30/62] fix: flatten remembers the shape of two-dimensional
 inputs too

---
 smart_dnn/Layers/FlattenLayer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 552280a..d9dffda 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
-- 
2.43.0


From 589360f90c1905639d564a76abe4db61bb4d36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 31/62] fix: activation layers reject backward before forward

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..7cb3750 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,9 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("ActivationLayer: forward must be called before backward");
+        }
         return activation->backward((*input), gradOutput);
     }
 
-- 
2.43.0


From a343fb201ff23f56d96da800068d2cce16fd4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 32/62] fix: centered RMSProp does not take the root of a
 negative variance

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..b518d56 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -99,7 +99,8 @@ private:
                 meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;
                 
                 // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
-                T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
+                // (a variance: rounding must not make it negative)
+                T variance = std::max(sqGradsData[j] - meanGradsData[j] * meanGradsData[j], T(0));
                 denom = std::sqrt(variance + epsilon);
             } else {
                 // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
-- 
2.43.0


From cb2938089c3973e3cf2ede667c9806c918a586e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 33/62] fix: Adam corrects the bias of its moments once

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..250360b 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -76,10 +76,6 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
-
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -88,7 +84,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j]);
         }
     }
 
@@ -99,7 +95,7 @@ private:
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -112,7 +108,7 @@ private:
         // Compute update
         T mHat = mValue / (T(1) - std::pow(beta1, iterations));
         T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From 8b6b3d6f9fa0152f8812f96174b4fb201a0b116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 34/62] fix: Adam counts the updates of each tensor separately

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 250360b..c7a389b 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -42,9 +42,9 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
-        updateLearningRate(learningRateOverride);
-
         for (size_t i = 0; i < weights.size(); ++i) {
+            countStep(weights[i].get());
+            updateLearningRate(learningRateOverride);
             updateTensor(weights[i].get(), gradients[i].get());
         }
     }
@@ -58,13 +58,18 @@ private:
     T l1Strength;
     T l2Strength;
     T decay;
-    int iterations;
+    int iterations; // updates of the tensor being updated
     int batchSize;
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
+    std::unordered_map<size_t, int> steps; // Updates of each tensor
+
+    // A model updates its layers in separate calls: each tensor has its own step number
+    void countStep(const Tensor<T>& weight) {
+        iterations = ++steps[reinterpret_cast<size_t>(&weight)];
+    }
 
     void updateLearningRate(T learningRateOverride) {
-        iterations++;
         if (learningRateOverride <= T(0)) {
             learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
         } else {
-- 
2.43.0


From 05446cee3529a9c75d406d9c02db088602f48802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 35/62] fix: optimizers reject gradients of another size before
 updating anything

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 5 +++++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 5 +++++
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index c7a389b..a020122 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -41,6 +41,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient shape mismatch!");
+            }
+        }
 
         for (size_t i = 0; i < weights.size(); ++i) {
             countStep(weights[i].get());
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index b518d56..eb55c57 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -36,6 +36,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient shape mismatch!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..a7baa8e 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -34,6 +34,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient shape mismatch!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
-- 
2.43.0


From 6c748a9a8690239ba301b58b74ef210f1b79ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 36/62] fix: optimizers start afresh for a tensor of another
 size at a known address

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 11 +++++++++++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 12 ++++++++++++
 smart_dnn/Optimizers/SGDOptimizer.hpp     |  4 ++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index a020122..0de56b4 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -71,6 +71,7 @@ private:
 
     // A model updates its layers in separate calls: each tensor has its own step number
     void countStep(const Tensor<T>& weight) {
+        discardStateOfAnotherSize(reinterpret_cast<size_t>(&weight), weight.getShape().size());
         iterations = ++steps[reinterpret_cast<size_t>(&weight)];
     }
 
@@ -82,6 +83,16 @@ private:
         }
     }
 
+    // A tensor of another size at the same address is a new tensor
+    void discardStateOfAnotherSize(size_t key, size_t size) {
+        auto it = m.find(key);
+        if (it != m.end() && it->second.getShape().size() != size) {
+            m.erase(key);
+            v.erase(key);
+            steps.erase(key);
+        }
+    }
+
     void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient) {
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index eb55c57..a28c339 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -58,6 +58,8 @@ private:
         size_t size = weight.getShape().size();
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
+        discardStateOfAnotherSize(weightsPtr, size);
+
         // Get or create squared gradients buffer
         if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
             squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
@@ -126,6 +128,16 @@ private:
         }
     }
 
+    // A tensor of another size at the same address is a new tensor
+    void discardStateOfAnotherSize(uintptr_t weightsPtr, size_t size) {
+        auto it = squaredGrads.find(weightsPtr);
+        if (it != squaredGrads.end() && it->second->getShape().size() != size) {
+            squaredGrads.erase(weightsPtr);
+            meanGrads.erase(weightsPtr);
+            velocityBuffers.erase(weightsPtr);
+        }
+    }
+
     T learningRate;
     T alpha;
     T epsilon;
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index a7baa8e..446f185 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -58,8 +58,8 @@ private:
         // Get or create momentum buffer for this tensor
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
-        // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
+        // Check if momentum buffer exists, create if it doesn't (or belonged to a tensor of another size)
+        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape().size() != size) {
             momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         
-- 
2.43.0


From 0b93b7238230056727ccd2d9432790fbb344f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 37/62] fix: training rejects differing numbers of inputs and
 targets and uncompiled models

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..6a8a7d0 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -16,6 +16,9 @@ void SmartDNN<T>::backward(const Tensor<T>& gradOutput) {
 
 template <typename T>
 void SmartDNN<T>::updateWeights() {
+    if (!optimizer) {
+        throw std::runtime_error("SmartDNN: the model must be compiled before updating weights");
+    }
     for (auto& layer : layers) {
         layer->updateWeights(*optimizer);
     }
@@ -28,6 +31,13 @@ Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("SmartDNN: the numbers of inputs and targets differ");
+    }
+    if (!lossFunction || !optimizer) {
+        throw std::runtime_error("SmartDNN: the model must be compiled before training");
+    }
+
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From 079baf2340e3b9a13b5360edd64e0953ca3b7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 38/62] fix: batch normalization differentiates the evaluation
 pass too

---
 .../BatchNormalizationLayer.hpp               | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index ea8d428..bc3d93a 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -38,6 +38,7 @@ public:
             TensorType reshapedBeta = reshapeForBroadcast(beta, shape);
 
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
+            normalizedByBatch = true;
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
             runningMean = (momentum * runningMean) + ((1 - momentum) * reshapeForBroadcast(*batchMean, runningMean.getShape()));
@@ -50,8 +51,11 @@ public:
             TensorType reshapedGamma = reshapeForBroadcast(gamma, shape);
             TensorType reshapedBeta = reshapeForBroadcast(beta, shape);
 
-            TensorType normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
-            return (normalizedInput * reshapedGamma) + reshapedBeta;
+            batchMean = runningMean;
+            batchVariance = runningVariance;
+            normalizedByBatch = false;
+            normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
+            return (*normalizedInput * reshapedGamma) + reshapedBeta;
         }
         }
 
@@ -76,6 +80,14 @@ public:
         TensorType stdDev = variance.sqrt();
         TensorType invStdDev = AdvancedTensorOperations<T>::reciprocal(stdDev);
         
+        gammaGrad = dGamma;
+        betaGrad = dBeta;
+
+        // In evaluation mode the statistics do not depend on the input
+        if (!normalizedByBatch) {
+            return dNormalized * invStdDev;
+        }
+
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
         dVariance = dVariance * T(-0.5) * invStdDev;
@@ -89,9 +101,6 @@ public:
                             dVariance * T(2) * (*normalizedInput) / T(samplesPerFeature) +
                             dMean / T(samplesPerFeature);
 
-        gammaGrad = dGamma;
-        betaGrad = dBeta;
-
         return dInput;
     }
 
@@ -117,6 +126,7 @@ private:
     std::optional<TensorType> batchMean;
     std::optional<TensorType> batchVariance;
     std::optional<TensorType> normalizedInput;
+    bool normalizedByBatch = true; // whether the latest forward used the statistics of its batch
 
     std::optional<TensorType> gammaGrad;
     std::optional<TensorType> betaGrad;
-- 
2.43.0


From b1c668a80e31965a51ae12ddfb7c18a720d740f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:47 +0000
Subject: [PATCH 39/62] fix: the MNIST loader reports truncated and damaged
 files

---
 smart_dnn/Datasets/MNistLoader.hpp | 43 +++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..25aa9fb 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -1,6 +1,7 @@
 #ifndef MNIST_LOADER_HPP
 #define MNIST_LOADER_HPP
 
+#include <cstdint>
 #include <fstream>
 #include <vector>
 #include <iostream>
@@ -66,6 +67,11 @@ private:
         int numRows = readInt(file);
         int numCols = readInt(file);
 
+        if (numImages < 0 || numRows <= 0 || numCols <= 0) {
+            throw std::runtime_error("Invalid header in MNIST image file!");
+        }
+        expectBytes(file, numImages, uint64_t(numRows) * uint64_t(numCols));
+
         if (numSamples != -1) {
             numImages = numSamples;
         }
@@ -82,7 +88,7 @@ private:
             for (int j = 0; j < currentBatchSize; ++j) { // Read the actual batch size
                 for (int k = 0; k < numRows; ++k) {
                     for (int l = 0; l < numCols; ++l) {
-                        unsigned char pixel = file.get();
+                        unsigned char pixel = readByte(file);
                         image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                         if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                             throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
@@ -104,6 +110,11 @@ private:
         int magicNumber = readInt(file);
         int numLabels = readInt(file);
 
+        if (numLabels < 0) {
+            throw std::runtime_error("Invalid header in MNIST label file!");
+        }
+        expectBytes(file, numLabels, 1);
+
         if (numSamples != -1) {
             numLabels = numSamples;
         }
@@ -118,7 +129,10 @@ private:
 
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
-                unsigned char digit = file.get();
+                unsigned char digit = readByte(file);
+                if (digit > 9) {
+                    throw std::runtime_error("Invalid label in MNIST label file: " + std::to_string(digit));
+                }
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -129,8 +143,29 @@ private:
 
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
-        file.read(reinterpret_cast<char*>(buffer), 4);
-        return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
+        if (!file.read(reinterpret_cast<char*>(buffer), 4)) {
+            throw std::runtime_error("Truncated MNIST file!");
+        }
+        return static_cast<int>((uint32_t(buffer[0]) << 24) | (uint32_t(buffer[1]) << 16) | (uint32_t(buffer[2]) << 8) | uint32_t(buffer[3]));
+    }
+
+    unsigned char readByte(std::ifstream& file) {
+        int byte = file.get();
+        if (byte == std::ifstream::traits_type::eof()) {
+            throw std::runtime_error("Truncated MNIST file!");
+        }
+        return static_cast<unsigned char>(byte);
+    }
+
+    // A header that promises more data than the file holds is damaged
+    void expectBytes(std::ifstream& file, uint64_t count, uint64_t size) {
+        auto position = file.tellg();
+        file.seekg(0, std::ios::end);
+        uint64_t available = static_cast<uint64_t>(file.tellg() - position);
+        file.seekg(position);
+        if (!file || (count > 0 && size > available / count)) {
+            throw std::runtime_error("Truncated MNIST file!");
+        }
     }
 };
 
-- 
2.43.0


From 46a43b44126d163116f698741dbbc5da0ff5dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 40/62] fix: the MNIST loader rejects bad batch sizes,
 impossible requests and mismatched files

---
 smart_dnn/Datasets/MNistLoader.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 25aa9fb..deb7baf 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -18,8 +18,14 @@ public:
         : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {}
 
     std::pair<std::vector<TensorType>, std::vector<TensorType>> loadData() {
+        if (batchSize <= 0) {
+            throw std::invalid_argument("MNISTLoader: batch size must be positive");
+        }
         std::vector<TensorType> images = loadImages();
         std::vector<TensorType> labels = loadLabels();
+        if (storedImages != storedLabels) {
+            throw std::runtime_error("MNIST image and label files hold different numbers of samples!");
+        }
         return {images, labels};
     }
 
@@ -55,6 +61,8 @@ private:
     std::string labelsPath;
     int batchSize;
     int numSamples;
+    int storedImages = 0;
+    int storedLabels = 0;
 
     std::vector<TensorType> loadImages() {
         std::ifstream file(imagesPath, std::ios::binary);
@@ -70,9 +78,11 @@ private:
         if (numImages < 0 || numRows <= 0 || numCols <= 0) {
             throw std::runtime_error("Invalid header in MNIST image file!");
         }
+        storedImages = numImages;
         expectBytes(file, numImages, uint64_t(numRows) * uint64_t(numCols));
 
         if (numSamples != -1) {
+            checkRequest(numImages);
             numImages = numSamples;
         }
 
@@ -113,9 +123,11 @@ private:
         if (numLabels < 0) {
             throw std::runtime_error("Invalid header in MNIST label file!");
         }
+        storedLabels = numLabels;
         expectBytes(file, numLabels, 1);
 
         if (numSamples != -1) {
+            checkRequest(numLabels);
             numLabels = numSamples;
         }
 
@@ -141,6 +153,12 @@ private:
         return labels;
     }
 
+    void checkRequest(int stored) {
+        if (numSamples < 0 || numSamples > stored) {
+            throw std::invalid_argument("MNISTLoader: more samples requested than the files hold");
+        }
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
         if (!file.read(reinterpret_cast<char*>(buffer), 4)) {
-- 
2.43.0


From 1553393afa0990be257ee1e850b312df4f0dbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 41/62] fix: noise of zero strength does not violate the
 precondition of normal_distribution

---
 smart_dnn/Datasets/SampleGenerator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index a84114e..d53abe0 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -15,11 +15,11 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
     std::random_device rd;
     std::mt19937 gen(rd());
     std::uniform_real_distribution<> input_dist(0, 100.0);
-    std::normal_distribution<> noise_dist(0, noise); 
+    std::normal_distribution<> noise_dist(0, 1); 
 
     for (int i = 0; i < num_samples; ++i) {
         float x = input_dist(gen);
-        float y = 2.0f * x + 3.0f + noise_dist(gen);
+        float y = 2.0f * x + 3.0f + noise * noise_dist(gen);
 
         Tensor input(Shape{1}, x); 
         Tensor target(Shape{1}, y);
@@ -37,7 +37,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::random_device rd;
     std::mt19937 gen(rd());
     std::uniform_real_distribution<> input_dist(0, 100.0);
-    std::normal_distribution<> noise_dist(0, noise);
+    std::normal_distribution<> noise_dist(0, 1);
 
     int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
 
@@ -49,7 +49,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
 
         for (int i = 0; i < current_batch_size; ++i) {
             float x = input_dist(gen);
-            float y = 2.0f * x + 3.0f + noise_dist(gen);
+            float y = 2.0f * x + 3.0f + noise * noise_dist(gen);
 
             input_batch.at({i, 0}) = x;
             target_batch.at({i, 0}) = y;
-- 
2.43.0


From 41b01d939ccbf2ed208fdc210d04d6e7b8b8eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 42/62] fix: the batched generator rejects bad batch sizes and
 does not overflow on large ones

---
 smart_dnn/Datasets/SampleGenerator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index d53abe0..a352154 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <vector>
 #include <random>
+#include <stdexcept>
 #include "smart_dnn/Tensor/Tensor.hpp"
 
 namespace smart_dnn {
@@ -31,6 +32,10 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
 }
 
 std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+    if (batch_size <= 0) {
+        throw std::invalid_argument("Batch size must be positive");
+    }
+
     std::vector<Tensor<float>> input_batches;
     std::vector<Tensor<float>> target_batches;
 
@@ -39,7 +44,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::uniform_real_distribution<> input_dist(0, 100.0);
     std::normal_distribution<> noise_dist(0, 1);
 
-    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
+    int num_batches = num_samples / batch_size + (num_samples % batch_size > 0 ? 1 : 0);  // Ceiling division
 
     for (int batch = 0; batch < num_batches; ++batch) {
         int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
-- 
2.43.0


From 7c936d8d4e4b1b0d2de984d3c2fd978de37addf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:50 +0000
Subject: [PATCH 43/62] fix: broadcast views index tensors of more than 2^31
 elements

---
 smart_dnn/Tensor/BroadcastView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/BroadcastView.hpp b/smart_dnn/Tensor/BroadcastView.hpp
index 3da4852..e451d9b 100644
--- a/smart_dnn/Tensor/BroadcastView.hpp
+++ b/smart_dnn/Tensor/BroadcastView.hpp
@@ -48,8 +48,8 @@ private:
         }
     }
 
-    int mapIndex(const std::vector<int>& indices) const {
-        int flatIndex = 0;
+    size_t mapIndex(const std::vector<int>& indices) const {
+        size_t flatIndex = 0;
         const auto& orig_shape = original_.shape();
         const auto& orig_stride = original_.shape().getStride();
         int orig_dim = orig_shape.rank() - 1;
-- 
2.43.0


From 99031a3cd67d2a797be9a241d9fe41996e667f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 44/62] fix: slice views index tensors of more than 2^31
 elements

---
 smart_dnn/Tensor/SliceView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index cea7afc..3a6183e 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -29,8 +29,8 @@ private:
         sliced_shape_ = Shape(new_dims);
     }
 
-    int mapIndex(const std::vector<int>& indices) const {
-        int flatIndex = 0;
+    size_t mapIndex(const std::vector<int>& indices) const {
+        size_t flatIndex = 0;
         const auto& orig_stride = original_.shape().getStride();
         for (size_t i = 0; i < indices.size(); ++i) {
             flatIndex += (start_indices_[i] + indices[i] * step_sizes_[i]) * orig_stride[i];
-- 
2.43.0


From a237be4993e796a0ed2ca434e2cc0cddf6f4e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 45/62] fix: constructors that allocate report allocation
 failures

---
 smart_dnn/Shape/Shape.hpp               | 2 +-
 smart_dnn/Tensor/Tensor.hpp             | 6 +++---
 smart_dnn/Tensor/Tensor.impl.hpp        | 6 +++---
 smart_dnn/Tensor/TensorData.hpp         | 4 ++--
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index 1286db0..0d3e101 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -11,7 +11,7 @@
 struct Shape {
     ~Shape() = default;
 
-    Shape(const Shape& other) noexcept
+    Shape(const Shape& other)
         : _dimensions(other._dimensions), _size(other._size), _stride(other._stride) {}
 
     Shape(Shape&& other) noexcept
diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 5d10153..8336f23 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -13,9 +13,9 @@ namespace smart_dnn {
 template <typename T=float, typename DeviceType=CPUDevice>
 class Tensor {
 public:
-    Tensor(Shape dimensions) noexcept;
-    Tensor(Shape dimensions, T value) noexcept;
-    Tensor(const TensorData<T, DeviceType>& data) noexcept;
+    Tensor(Shape dimensions);
+    Tensor(Shape dimensions, T value);
+    Tensor(const TensorData<T, DeviceType>& data);
     Tensor(TensorData<T, DeviceType>&& data) noexcept;
     Tensor(Shape dimensions, const T* dataArray);
     Tensor(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index aa98ab8..a5d57cb 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -6,16 +6,16 @@ namespace smart_dnn {
 #define TEMPLATE_TENSOR template <typename T, typename DeviceType>
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions) noexcept : data_(dimensions) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions) : data_(dimensions) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) noexcept : data_(dimensions, value) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) : data_(dimensions, value) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const T* dataArray) : data_(dimensions, dataArray) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) noexcept : data_(data) {}
+Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) : data_(data) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(TensorData<T, DeviceType>&& data) noexcept : data_(std::move(data)) {}
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 0a26a56..fa200c4 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -17,8 +17,8 @@ class TensorData;
 template <typename T>
 class TensorData<T, CPUDevice> {
 public:
-    explicit TensorData(Shape dimensions) noexcept;
-    TensorData(Shape dimensions, T value) noexcept;
+    explicit TensorData(Shape dimensions);
+    TensorData(Shape dimensions, T value);
     TensorData(Shape dimensions, const T* data);
     TensorData(Shape dimensions, T* data) noexcept; // used for slicing.
     TensorData(const TensorData& other);
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index 641f6e5..9bd73c2 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -8,13 +8,13 @@ namespace smart_dnn {
 #define TENSOR_DATA_CPU TensorData<T, CPUDevice>
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions) 
     : shape_(std::move(dimensions)), data_(std::make_unique<T[]>(shape_.size())) {
         std::fill(data_.get(), data_.get() + shape_.size(), T{});
     }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) 
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
     std::fill_n(data_.get(), shape_.size(), value);
 }
-- 
2.43.0


From 5cee792accfbc3812bf3cb5a6189245f313d2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 46/62] fix: moving a tensor reports allocation failures and
 leaves both tensors valid

---
 smart_dnn/Tensor/Tensor.hpp      | 4 ++--
 smart_dnn/Tensor/Tensor.impl.hpp | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 8336f23..9dbccb7 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -19,7 +19,7 @@ public:
     Tensor(TensorData<T, DeviceType>&& data) noexcept;
     Tensor(Shape dimensions, const T* dataArray);
     Tensor(const Tensor& other);
-    Tensor(Tensor&& other) noexcept;
+    Tensor(Tensor&& other);
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
     Tensor(Shape dimensions, std::vector<T>&& values);
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept;
+    Tensor& operator=(Tensor&& other);
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index a5d57cb..1b8ff8a 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -24,8 +24,8 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(const Tensor<T, DeviceType>& other) : data_(other.data_) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Tensor<T, DeviceType>&& other) noexcept : data_(std::move(other.data_)) {
-    other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+Tensor<T, DeviceType>::Tensor(Tensor<T, DeviceType>&& other) : data_(Shape({1})) {
+    std::swap(data_, other.data_); // We should not have an empty tensor
 }
 
 TEMPLATE_TENSOR
@@ -46,10 +46,11 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
 }
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) {
     if (this != &other) {
+        TensorData<T, DeviceType> empty(Shape({1}));
         data_ = std::move(other.data_);
-        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+        other.data_ = std::move(empty); // We should not have an empty tensor
     }
     return *this;
 }
-- 
2.43.0


From 1887c3c639f94cc5a3e93430bdb3e2a195c3e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 47/62] fix: a shape keeps its strides in step when an
 assignment or reshape runs out of memory

---
 smart_dnn/Shape/Shape.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index 0d3e101..e2491e2 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -52,9 +52,10 @@ struct Shape {
 
     Shape& operator=(const Shape& other) {
         if (this != &other) {
+            std::vector<size_t> stride = other._stride;
             _dimensions = other._dimensions;
             _size = other._size;
-            _stride = other._stride;  
+            _stride = std::move(stride);
         }
         return *this;
     }
@@ -88,8 +89,9 @@ struct Shape {
                 + ". New dimensions: " + Shape(dims).toString());
         }
 
-        _dimensions = dims;
-        _stride = calculateStride();
+        Shape reshaped(dims);
+        _dimensions = std::move(reshaped._dimensions);
+        _stride = std::move(reshaped._stride);
     }
 
     [[nodiscard]] const std::vector<int>& getDimensions() const { return _dimensions; }
-- 
2.43.0


From 5132d2fdc63d848b3a12891fdd4be1e2bb1f96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 48/62] fix: a tensor is unchanged when an assignment to it
 runs out of memory

---
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index 9bd73c2..4a55aba 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -59,8 +59,9 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU& TENSOR_DATA_CPU::operator=(const TENSOR_DATA_CPU& other) {
     if (this != &other) {
+        std::unique_ptr<T[]> data(new T[other.shape_.size()]);
         shape_ = other.shape_;
-        data_.reset(new T[shape_.size()]);
+        data_ = std::move(data);
         std::copy_n(other.data_.get(), shape_.size(), data_.get());
     }
     return *this;
-- 
2.43.0


From 2a2dce287cabab199c62da649138cf644cc76ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 49/62] fix: drawing an image with pixel values outside [0, 1)
 reads no memory outside the level table

---
 smart_dnn/Datasets/MNistLoader.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index deb7baf..b57491e 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -46,8 +46,9 @@ public:
                 indices.push_back(j);
                 float value = input.at(indices);
                 
-                // Map the value to an ASCII character
-                int index = std::min(static_cast<int>(value * numLevels), numLevels - 1);
+                // Map the value to an ASCII character; values outside [0, 1) take the nearest level
+                const float level = value * numLevels;
+                int index = level >= numLevels - 1 ? numLevels - 1 : (level > 0 ? static_cast<int>(level) : 0);
                 oss << asciiChars[index];
             }
             oss << "\n";
-- 
2.43.0


From 35d311b92b4f2649c7f811461fe1056501e9af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:28 +0000
Subject: [PATCH 50/62] fix: a fully connected layer rejects gradients that do
 not match its output

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 0c7a3ad..0a05453 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -70,6 +70,10 @@ public:
             reshapedGradOutput = AdvancedTensorOperations<T>::reshape(gradOutput, {1, gradOutput.getShape()[0]});
         }
 
+        if (reshapedGradOutput.getShape() != Shape({inputTensor.getShape()[0], weights->getShape()[1]})) {
+            throw std::invalid_argument("FullyConnectedLayer: gradient shape " + gradOutput.getShape().toString() + " does not match the output");
+        }
+
         // Calculate weight gradients
         TensorType inputTransposed = AdvancedTensorOperations<T>::transpose(inputTensor, 0, 1); // Shape: (input_size, batch_size)
         weightGradients.emplace(AdvancedTensorOperations<T>::matmul(inputTransposed, reshapedGradOutput)); // Shape: (input_size, output_size)
-- 
2.43.0


From def563d3493a1f3711d2cdaaf9bfd3fc857be2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 51/62] fix: a convolution reports wrong inputs instead of
 aborting the process

---
 smart_dnn/Layers/Conv2DLayer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index b8d349b..fa1970e 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -4,7 +4,7 @@
 #include <vector>
 #include <cmath>
 #include <iostream>
-#include <cassert>
+#include <stdexcept>
 #include "smart_dnn/Layer.hpp"
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Optimizer.hpp"
@@ -33,8 +33,12 @@ public:
     
     */
     TensorType forward(const TensorType& input) override {
-        assert(input.getShape().rank() == 4 && "Input must be 4D (batch, channels, height, width)");
-        assert(input.getShape()[1] == inputChannels && "Input channels must match layer's input channels");
+        if (input.getShape().rank() != 4) {
+            throw std::invalid_argument("Conv2DLayer: input must be 4D (batch, channels, height, width)");
+        }
+        if (input.getShape()[1] != inputChannels) {
+            throw std::invalid_argument("Conv2DLayer: input channels must match the layer's input channels");
+        }
 
         // Store the input for use in backward pass
         this->input = input;
-- 
2.43.0


From 5f9677917fbe0dad0edcbfedd58c2b37e0e35dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 52/62] fix: a convolution rejects gradients that do not match
 its output

---
 smart_dnn/Layers/Conv2DLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index fa1970e..de79472 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -100,6 +100,10 @@ public:
         Shape weightsShape = weightsTensor.getShape();
         Shape gradOutputShape = gradOutput.getShape();
 
+        if (gradOutputShape != Shape({inputShape[0], outputChannels, outputExtent(inputShape[2], kernelHeight), outputExtent(inputShape[3], kernelWidth)})) {
+            throw std::invalid_argument("Conv2DLayer: gradient shape " + gradOutputShape.toString() + " does not match the output");
+        }
+
         // Initialize gradients
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
-- 
2.43.0


From 5ac8a7c3f61d7509c2d3690ad03d3f71d1d0e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 53/62] fix: max pooling rejects gradients that do not match
 its output

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 210a913..0b0ee08 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -32,8 +32,8 @@ public:
         if (padding >= poolSize || inputHeight + 2 * padding < poolSize || inputWidth + 2 * padding < poolSize) {
             throw std::invalid_argument("MaxPooling2DLayer: pool does not fit the padded input");
         }
-        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
-        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
+        int outputHeight = outputExtent(inputHeight);
+        int outputWidth = outputExtent(inputWidth);
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -61,6 +61,9 @@ public:
 
         int batchSize = tensorValue.getShape()[0];
         int inputChannels = tensorValue.getShape()[1];
+        if (gradOutput.getShape() != Shape({batchSize, inputChannels, outputExtent(tensorValue.getShape()[2]), outputExtent(tensorValue.getShape()[3])})) {
+            throw std::invalid_argument("MaxPooling2DLayer: gradient shape " + gradOutput.getShape().toString() + " does not match the output");
+        }
         int outputHeight = gradOutput.getShape()[2];
         int outputWidth = gradOutput.getShape()[3];
 
@@ -83,6 +86,10 @@ private:
     int padding;
     std::optional<TensorType> input;
 
+    int outputExtent(int inputExtent) const {
+        return (inputExtent + 2 * padding - poolSize) / stride + 1;
+    }
+
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
         T maxVal = -std::numeric_limits<T>::infinity();
         int maxIh = 0, maxIw = 0;
-- 
2.43.0


From 2b9107c3495c21f9bb2b4d31c708cdf89fe25edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 54/62] fix: batch normalization rejects gradients that do not
 match its output

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index bc3d93a..950176f 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -63,6 +63,9 @@ public:
         if (!batchMean || !batchVariance || !normalizedInput) {
             throw std::runtime_error("BatchNormalizationLayer: forward must be called before backward");
         }
+        if (gradOutput.getShape() != normalizedInput->getShape()) {
+            throw std::invalid_argument("BatchNormalizationLayer: gradient shape " + gradOutput.getShape().toString() + " does not match the output");
+        }
 
         const auto& inputShape = gradOutput.getShape();
         
-- 
2.43.0


From 9ce7682cec783e07dc93ea957f527101eefb4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 55/62] fix: batch normalization rejects inputs of another
 feature count in evaluation mode

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 950176f..adb1c7c 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -24,6 +24,9 @@ public:
         if (shape.rank() != 2 && shape.rank() != 4) {
             throw std::runtime_error("BatchNormalizationLayer: input tensor must have rank 2 or 4");
         }
+        if (shape[1] != numFeatures) {
+            throw std::invalid_argument("BatchNormalizationLayer: input must have " + std::to_string(numFeatures) + " features");
+        }
 
         std::vector<size_t> reductionAxes = (shape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
-- 
2.43.0


From d1b0dfb07dd910ea938f90e2d6b28b30444b8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 56/62] fix: Adam rejects batch sizes that are not positive

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0de56b4..6e8aa68 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -33,7 +33,11 @@ public:
           l2Strength(options.l2Strength),
           decay(options.decay),
           iterations(0),
-          batchSize(options.batchSize) {}
+          batchSize(options.batchSize) {
+        if (batchSize <= 0) {
+            throw std::invalid_argument("AdamOptimizer: batch size must be positive");
+        }
+    }
 
     void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& weights,
                   const std::vector<std::reference_wrapper<Tensor<T>>>& gradients,
-- 
2.43.0


From 277f8b1f35991bf0152b3bbe5f2a9aead92f4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:14 +0000
Subject: [PATCH 57/62] fix: dropout rejects rates outside [0, 1)

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index cf887b3..455de4b 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -11,7 +11,11 @@ template <typename T=float>
 class DropoutLayer : public Layer<T> {
     using TensorType = Tensor<T>;
 public:
-    DropoutLayer(T dropoutRate) : dropoutRate(dropoutRate) {}
+    DropoutLayer(T dropoutRate) : dropoutRate(dropoutRate) {
+        if (!(dropoutRate >= T(0) && dropoutRate < T(1))) {
+            throw std::invalid_argument("DropoutLayer: rate must be in [0, 1)");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-- 
2.43.0


From fe0ab0f932dd4b8df5ad04552ccd177c9ac4ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:18 +0000
Subject: [PATCH 58/62] fix: max pooling rejects impossible options

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 0b0ee08..ae2ea70 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -14,7 +14,11 @@ class MaxPooling2DLayer : public Layer<T> {
 public:
     MaxPooling2DLayer(int poolSize) : MaxPooling2DLayer(poolSize, poolSize, 0) {}
     MaxPooling2DLayer(int poolSize, int stride) : MaxPooling2DLayer(poolSize, stride, 0) {}
-    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {}
+    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {
+        if (poolSize <= 0 || stride <= 0 || padding < 0) {
+            throw std::invalid_argument("MaxPooling2DLayer: pool size and stride must be positive, padding must not be negative");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (input.getShape().rank() != 4) {
-- 
2.43.0


From df5bd3f047480ba9ae6866dc89bd703ecf27d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 59/62] fix: a convolution rejects impossible options

---
 smart_dnn/Layers/Conv2DLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index de79472..8445889 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -22,7 +22,11 @@ public:
     Conv2DLayer(int inputChannels, int outputChannels, int kernelHeight, int kernelWidth, int stride = 1, int padding = 0, int dilation = 1) 
         : inputChannels(inputChannels), outputChannels(outputChannels), kernelHeight(kernelHeight), kernelWidth(kernelWidth), 
           stride(stride), padding(padding), dilation(dilation) {
-        
+
+        if (stride <= 0 || padding < 0 || dilation <= 0) {
+            throw std::invalid_argument("Conv2DLayer: stride and dilation must be positive, padding must not be negative");
+        }
+
         initializeWeights();
     }
 
-- 
2.43.0


From 4513a2932c0b7cb5c5ee22b00a53e42030afc224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 60/62] fix: asking a model for a layer it does not have is
 rejected

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 6a8a7d0..fcf7e5c 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -26,7 +26,7 @@ void SmartDNN<T>::updateWeights() {
 
 template <typename T>
 Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
-    return layers[index].get();
+    return layers.at(index).get();
 }
 
 template <typename T>
-- 
2.43.0


From 8426f1054038807d86738eb5ffcdcf99310b7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:53 +0000
Subject: [PATCH 61/62] fix: copies of SGDOptimizer do not share their state

---
 smart_dnn/Optimizers/SGDOptimizer.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 446f185..d132300 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -59,13 +59,12 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Check if momentum buffer exists, create if it doesn't (or belonged to a tensor of another size)
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape().size() != size) {
-            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+        auto buffer = momentumBuffers.find(weightsPtr);
+        if (buffer == momentumBuffers.end() || buffer->second.getShape().size() != size) {
+            buffer = momentumBuffers.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0))).first;
         }
         
-        auto& momentumBuffer = *momentumBuffers[weightsPtr];
-        
-        T* momentumData = momentumBuffer.getData().data();
+        T* momentumData = buffer->second.getData().data();
         
         for (size_t j = 0; j < size; ++j) {
             T grad = gradData[j];
@@ -100,7 +99,7 @@ private:
     bool nesterov;
     
     // Store momentum buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> momentumBuffers;
+    std::unordered_map<uintptr_t, Tensor<T>> momentumBuffers;
 };
 
 } // namespace smart_dnn
-- 
2.43.0


From 822cc0d9ffa356bc16d203eeafe7e01db5f5a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:57 +0000
Subject: [PATCH 62/62] fix: copies of RMSPropOptimizer do not share their
 state

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 39 +++++++----------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a28c339..fceeda5 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -61,33 +61,13 @@ private:
         discardStateOfAnotherSize(weightsPtr, size);
 
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
-            squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-        }
-        auto& sqGrads = *squaredGrads[weightsPtr];
-        T* sqGradsData = sqGrads.getData().data();
+        T* sqGradsData = stateOf(squaredGrads, weightsPtr, weight.getShape());
         
         // For centered RMSProp, also track the mean of gradients
-        std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
-        T* meanGradsData = nullptr;
-        if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
-                meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            meanGradsPtr = meanGrads[weightsPtr];
-            meanGradsData = meanGradsPtr->getData().data();
-        }
+        T* meanGradsData = centered ? stateOf(meanGrads, weightsPtr, weight.getShape()) : nullptr;
         
         // For momentum, track velocity buffer
-        std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
-        T* velocityData = nullptr;
-        if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
-                velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            velocityPtr = velocityBuffers[weightsPtr];
-            velocityData = velocityPtr->getData().data();
-        }
+        T* velocityData = momentum > T(0) ? stateOf(velocityBuffers, weightsPtr, weight.getShape()) : nullptr;
         
         for (size_t j = 0; j < size; ++j) {
             T grad = gradData[j];
@@ -128,10 +108,15 @@ private:
         }
     }
 
+    // The buffer kept for a tensor, created (as zeros) if there is none yet
+    static T* stateOf(std::unordered_map<uintptr_t, Tensor<T>>& buffers, uintptr_t weightsPtr, const Shape& shape) {
+        return buffers.try_emplace(weightsPtr, shape, T(0)).first->second.getData().data();
+    }
+
     // A tensor of another size at the same address is a new tensor
     void discardStateOfAnotherSize(uintptr_t weightsPtr, size_t size) {
         auto it = squaredGrads.find(weightsPtr);
-        if (it != squaredGrads.end() && it->second->getShape().size() != size) {
+        if (it != squaredGrads.end() && it->second.getShape().size() != size) {
             squaredGrads.erase(weightsPtr);
             meanGrads.erase(weightsPtr);
             velocityBuffers.erase(weightsPtr);
@@ -146,9 +131,9 @@ private:
     T weightDecay;
     
     // Store state buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> squaredGrads;
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> meanGrads;      // For centered RMSProp
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> velocityBuffers; // For momentum
+    std::unordered_map<uintptr_t, Tensor<T>> squaredGrads;
+    std::unordered_map<uintptr_t, Tensor<T>> meanGrads;      // For centered RMSProp
+    std::unordered_map<uintptr_t, Tensor<T>> velocityBuffers; // For momentum
 };
 
 } // namespace smart_dnn
-- 
2.43.0

