From 498fcee1e5ce22ffbe078366890babf472cdcb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 01/57] fix: global max pooling skipped the first column of
 every row but the first

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..2a1930e 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
@@ -48,7 +48,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, col, num_channels, width);
 
-- 
2.43.0


From 911de580607c70d1d50208a5cbf277bf2ffaa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 02/57] fix: convolution of an unsupported rank left the output
 unwritten instead of stopping

---
 pico-cnn/layers/convolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 0994463..c309c34 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -33,7 +33,7 @@ namespace pico_cnn {
         void Convolution::run(Tensor *input, Tensor *output) {
 
             if (input->num_dimensions() != 4 && input->num_dimensions() != 3) {
-                PRINT_ERROR("Not implemented for Tensor with number of dimensions: " << input->num_dimensions());
+                PRINT_ERROR_AND_DIE("Not implemented for Tensor with number of dimensions: " << input->num_dimensions());
             }
 
             uint32_t num_batches = input->num_batches();
-- 
2.43.0


From 30107bbaa1111cd10e526445c38cc55c607e6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 03/57] fix: convolution with an even kernel size never wrote
 the last output row and column

---
 pico-cnn/layers/convolution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index c309c34..cc01a83 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -137,8 +137,8 @@ namespace pico_cnn {
             uint32_t output_channel_row = 0;
             uint32_t output_channel_col = 0;
 
-            for(channel_row = height_crop; channel_row < input_height-height_crop; channel_row+=stride_height) {
-                for(channel_col = width_crop; channel_col < input_width - width_crop; channel_col += stride_width) {
+            for(channel_row = height_crop; channel_row < input_height - (kernel_height-1-height_crop); channel_row+=stride_height) {
+                for(channel_col = width_crop; channel_col < input_width - (kernel_width-1-width_crop); channel_col += stride_width) {
                     pixel = 0.0;
 
                     for(kernel_row = 0; kernel_row < kernel_height; kernel_row++) {
@@ -186,7 +186,7 @@ namespace pico_cnn {
 
             uint32_t output_channel_col = 0;
 
-            for(channel_col = width_crop; channel_col < input_width - width_crop; channel_col += stride_width) {
+            for(channel_col = width_crop; channel_col < input_width - (kernel_width-1-width_crop); channel_col += stride_width) {
                 pixel = 0.0;
 
                 for(kernel_col = 0; kernel_col < kernel_width; kernel_col++) {
-- 
2.43.0


From 371d8e55711be37e16b880d580926cdfe0f39fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 04/57] fix: average pooling without padded elements used a
 wrong divisor, or a null padding

---
 pico-cnn/layers/pooling/average_pooling.cpp | 84 +++++++++------------
 1 file changed, 35 insertions(+), 49 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..da27eb2 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -66,6 +66,11 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         } else if(count_include_pad_ == 0) {
 
+            uint32_t padding_up = padding_ ? padding_[0] : 0;
+            uint32_t padding_left = padding_ ? padding_[1] : 0;
+            uint32_t padding_down = padding_ ? padding_[2] : 0;
+            uint32_t padding_right = padding_ ? padding_[3] : 0;
+
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
 
@@ -88,40 +93,27 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                                 }
                             }
 
-                            // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
-
-                                output->access(batch, channel, output_channel_row, output_channel_column,
-                                               num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
-
-                                // edge case
-                            } else {
-
-                                uint32_t up_row, down_row, left_col, right_col;
-                                int32_t divisor, div_row, div_col;
+                            uint32_t up_row, down_row, left_col, right_col;
+                            int32_t divisor, div_row, div_col;
 
-                                up_row = MAX(channel_row, padding_[0]);
-                                down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding_[2] - 1);
-                                div_row = down_row - up_row + 1;
+                            up_row = MAX(channel_row, padding_up);
+                            down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding_down - 1);
+                            div_row = down_row - up_row + 1;
 
-                                left_col = MAX(channel_column, padding_[1]);
-                                right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding_[3] - 1);
-                                div_col = right_col - left_col + 1;
-
-                                divisor = div_row * div_col;
-
-                                if (divisor == 0) {
-                                    PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
-                                    exit(1);
-                                }
-
-                                output->access(batch, channel, output_channel_row, output_channel_column,
-                                               num_channels, output_height, output_width) = pixel / ((fp_t) (divisor));
+                            left_col = MAX(channel_column, padding_left);
+                            right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding_right - 1);
+                            div_col = right_col - left_col + 1;
 
+                            divisor = div_row * div_col;
 
+                            if (divisor == 0) {
+                                PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
+                                exit(1);
                             }
 
+                            output->access(batch, channel, output_channel_row, output_channel_column,
+                                           num_channels, output_height, output_width) = pixel / ((fp_t) (divisor));
+
                             output_channel_column++;
                         }
                         output_channel_row++;
@@ -168,6 +160,9 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         } else if(count_include_pad_ == 0) {
 
+            uint32_t padding_left = padding_ ? padding_[0] : 0;
+            uint32_t padding_right = padding_ ? padding_[1] : 0;
+
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
 
@@ -186,32 +181,23 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             pixel += input->access(batch, channel, kernel_column, num_channels, width);
                         }
 
-                        // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
-
-                            output->access(batch, channel, output_channel_column,
-                                           num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
-                        // edge case
-                        } else {
-
-                            uint32_t left_col, right_col;
-                            int32_t divisor, div_col;
-
-                            left_col = MAX(channel_column, padding_[0]);
-                            right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding_[1] - 1);
-                            div_col = right_col - left_col + 1;
+                        uint32_t left_col, right_col;
+                        int32_t divisor, div_col;
 
-                            divisor = div_col;
+                        left_col = MAX(channel_column, padding_left);
+                        right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding_right - 1);
+                        div_col = right_col - left_col + 1;
 
-                            if (divisor == 0) {
-                                PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
-                                exit(1);
-                            }
+                        divisor = div_col;
 
-                            output->access(batch, channel, output_channel_column,
-                                           num_channels, output_width) = pixel / ((fp_t) (divisor));
+                        if (divisor == 0) {
+                            PRINT_ERROR("ERROR: Division by zero! Aborting execution.")
+                            exit(1);
                         }
 
+                        output->access(batch, channel, output_channel_column,
+                                       num_channels, output_width) = pixel / ((fp_t) (divisor));
+
                         output_channel_column++;
                     }
                 }
-- 
2.43.0


From acd5c9127065fb28df7b4f52fecd5955934c1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 05/57] fix: max pooling took the zero of a padded position as
 a candidate for the maximum

---
 pico-cnn/layers/pooling/max_pooling.h | 4 ++++
 pico-cnn/layers/pooling/pooling.cpp   | 2 +-
 pico-cnn/layers/pooling/pooling.h     | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.h b/pico-cnn/layers/pooling/max_pooling.h
index 4bd2236..b1343a6 100644
--- a/pico-cnn/layers/pooling/max_pooling.h
+++ b/pico-cnn/layers/pooling/max_pooling.h
@@ -6,6 +6,8 @@
 #ifndef PICO_CNN_MAX_POOLING_H
 #define PICO_CNN_MAX_POOLING_H
 
+#include <limits>
+
 #include "../../parameters.h"
 #include "../../tensor.h"
 #include "../layer.h"
@@ -21,6 +23,8 @@ namespace pico_cnn {
 
         private:
             void pool(Tensor *input, Tensor *output) override;
+
+            fp_t padding_value() const override { return -std::numeric_limits<fp_t>::infinity(); }
         };
     }
 }
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..3a43abb 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -38,7 +38,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, this->padding_value());
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..4b078fb 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -22,6 +22,8 @@ namespace pico_cnn {
         protected:
             virtual void pool(Tensor *input, Tensor *output) = 0;
 
+            virtual fp_t padding_value() const { return 0.0; }
+
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
-- 
2.43.0


From 923409d27fd8bcd5a0b6df531945d4bcf767aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 06/57] fix: fully connected and matrix product computed the
 first row only

---
 pico-cnn/layers/fully_connected.cpp | 44 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pico-cnn/layers/fully_connected.cpp b/pico-cnn/layers/fully_connected.cpp
index 8920e20..a518065 100644
--- a/pico-cnn/layers/fully_connected.cpp
+++ b/pico-cnn/layers/fully_connected.cpp
@@ -22,21 +22,25 @@ namespace pico_cnn {
             uint32_t input_width = input->width();
             uint32_t kernel_width = kernel_->width();
 
-            for (uint32_t i = 0; i < output_width; i++) {
+            uint32_t num_rows = input->height();
 
-                fp_t pixel = 0.0;
+            for (uint32_t row = 0; row < num_rows; row++) {
+                for (uint32_t i = 0; i < output_width; i++) {
 
-                for (uint32_t j = 0; j < input_width; j++) {
-                    // With the kernel layout used in the onnx format we can use this memory optimized
-                    // access pattern (i, j) instead of (j, i) as the "normal" matrix multiplication is defined
-                    pixel += input->access(0, j, input_width) * kernel_->access(i, j, kernel_width);
-                }
+                    fp_t pixel = 0.0;
 
-                if(bias_) {
-                    pixel += bias_->access(i);
-                }
+                    for (uint32_t j = 0; j < input_width; j++) {
+                        // With the kernel layout used in the onnx format we can use this memory optimized
+                        // access pattern (i, j) instead of (j, i) as the "normal" matrix multiplication is defined
+                        pixel += input->access(row, j, input_width) * kernel_->access(i, j, kernel_width);
+                    }
 
-                output->access(0, i, output_width) = pixel;
+                    if(bias_) {
+                        pixel += bias_->access(i);
+                    }
+
+                    output->access(row, i, output_width) = pixel;
+                }
             }
         }
 
@@ -54,16 +58,20 @@ namespace pico_cnn {
             uint32_t input_width = input->width();
             uint32_t weights_width = weights_->width();
 
-            for (uint32_t i = 0; i < output_width; i++) {
+            uint32_t num_rows = input->height();
 
-                fp_t pixel = 0.0;
+            for (uint32_t row = 0; row < num_rows; row++) {
+                for (uint32_t i = 0; i < output_width; i++) {
 
-                for (uint32_t j = 0; j < input_width; j++) {
-                    // TODO: Improve performance of this operation. See FullyConnected.
-                    pixel += input->access(0, j, input_width) * weights_->access(j, i, weights_width);
-                }
+                    fp_t pixel = 0.0;
+
+                    for (uint32_t j = 0; j < input_width; j++) {
+                        // TODO: Improve performance of this operation. See FullyConnected.
+                        pixel += input->access(row, j, input_width) * weights_->access(j, i, weights_width);
+                    }
 
-                output->access(0, i, output_width) = pixel;
+                    output->access(row, i, output_width) = pixel;
+                }
             }
         }
     }
-- 
2.43.0


From 8b66d250b4db624afd270c375d434a2caa3930d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 07/57] fix: matrix product of an unsupported rank was computed
 wrongly instead of rejected

---
 pico-cnn/layers/fully_connected.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico-cnn/layers/fully_connected.cpp b/pico-cnn/layers/fully_connected.cpp
index a518065..41f218b 100644
--- a/pico-cnn/layers/fully_connected.cpp
+++ b/pico-cnn/layers/fully_connected.cpp
@@ -50,6 +50,9 @@ namespace pico_cnn {
         }
 
         void MatMul::run(Tensor *input, Tensor *output) {
+            if (input->num_dimensions() != 2 || output->num_dimensions() != 2) {
+                PRINT_ERROR_AND_DIE("Matrix multiplication only supports 2D input and output.")
+            }
             this->matmul(input, output);
         }
 
-- 
2.43.0


From 19fb1ec2329b1f4523f9e4b136638430f059c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 08/57] fix: tensor comparison read past the shorter shape and
 ignored a different rank

---
 pico-cnn/tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/tensor.h b/pico-cnn/tensor.h
index e86c6c1..22c8461 100644
--- a/pico-cnn/tensor.h
+++ b/pico-cnn/tensor.h
@@ -92,6 +92,10 @@ namespace pico_cnn {
             void mul_with_factor(Tensor *other, fp_t factor);
 
             bool operator ==(const Tensor &other) const {
+                if (num_dimensions_ != other.num_dimensions_) {
+                    PRINT_ERROR("Number of dimensions does not match: " << num_dimensions_ << " != " << other.num_dimensions_)
+                    return false;
+                }
                 for (uint32_t i = 0; i < num_dimensions_; i++) {
                     if(shape_[i] != other.shape_[i]) {
                         PRINT_ERROR("Shape does not match at position " << i << ": " << shape_[i] << " != " << other.shape_[i])
-- 
2.43.0


From b16afcbbb958c5bdd8d8065ad7c66e736e17eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 09/57] fix: padding with zero left the old values in the
 border of a reused tensor

---
 pico-cnn/tensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..a0f25d4 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -299,10 +299,8 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From 3a08a29fb19af965ff3e951c0c8f2fb2634cb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 10/57] fix: adding or scaling tensors of different sizes read
 or wrote past the end

---
 pico-cnn/tensor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index a0f25d4..c9c652a 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -111,6 +111,10 @@ namespace pico_cnn {
         bool Tensor::add_tensor(Tensor *other) const {
 //            if (*(this->shape()) == *(other->shape())) {
 
+            if (this->num_elements() != other->num_elements()) {
+                PRINT_ERROR_AND_DIE("Attempted to add Tensors of unequal number of elements.")
+            }
+
             for (uint32_t i = 0; i < this->num_elements_; i++) {
                 this->access_blob(i) = this->access_blob(i) + other->access_blob(i);
             }
@@ -138,6 +142,9 @@ namespace pico_cnn {
         }
 
         void Tensor::mul_with_factor(Tensor *other, fp_t factor) {
+            if (this->num_elements() != other->num_elements()) {
+                PRINT_ERROR_AND_DIE("Attempted to multiply into a Tensor of unequal number of elements.")
+            }
             for (uint32_t i = 0; i < num_elements_; i++) {
                 other->data_[i] = this->data_[i] * factor;
             }
-- 
2.43.0


From 1899be66ca6353ef37d12ccb17ab340f37714b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 11/57] fix: concatenation copied the first batch only

---
 pico-cnn/tensor.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index c9c652a..5f8927b 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -388,21 +388,23 @@ namespace pico_cnn {
 
                     Tensor *input = inputs[input_id];
 
-                    //uint32_t num_batches = input->num_batches();
+                    uint32_t num_batches = input->num_batches();
                     uint32_t num_input_channels = input->num_channels();
                     uint32_t input_channel_size = input->height() * input->width();
 
                     fp_t *input_channel_ptr;
                     fp_t *output_channel_ptr;
 
-                    for (uint32_t input_channel = 0; input_channel < num_input_channels; input_channel++) {
+                    for (uint32_t batch = 0; batch < num_batches; batch++) {
+                        for (uint32_t input_channel = 0; input_channel < num_input_channels; input_channel++) {
 
-                        input_channel_ptr = input->get_ptr_to_channel(0, input_channel);
-                        output_channel_ptr = this->get_ptr_to_channel(0, output_channel_counter+input_channel);
+                            input_channel_ptr = input->get_ptr_to_channel(batch, input_channel);
+                            output_channel_ptr = this->get_ptr_to_channel(batch, output_channel_counter+input_channel);
 
-                        std::memcpy(output_channel_ptr,
-                                    input_channel_ptr,
-                                    input_channel_size * sizeof(fp_t));
+                            std::memcpy(output_channel_ptr,
+                                        input_channel_ptr,
+                                        input_channel_size * sizeof(fp_t));
+                        }
                     }
                     output_channel_counter += num_input_channels;
                 }
-- 
2.43.0


From 49b195c389be6be545a1931ad2dc7aec1997c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 12/57] fix: concatenation of two-dimensional tensors wrote
 every input to the same place

---
 pico-cnn/tensor.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 5f8927b..63edd2e 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -380,8 +380,24 @@ namespace pico_cnn {
 
         void Tensor::concatenate_from(uint32_t num_inputs, Tensor **inputs, uint32_t dimension) const {
 
+            // concatenate the rows of two-dimensional tensors
+            if(dimension == 1 && num_dimensions_ == 2) {
+                uint32_t output_column = 0;
+
+                for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
+
+                    Tensor *input = inputs[input_id];
+
+                    for (uint32_t row = 0; row < input->height(); row++) {
+                        std::memcpy(data_ + row * this->width() + output_column,
+                                    input->data_ + row * input->width(),
+                                    input->width() * sizeof(fp_t));
+                    }
+                    output_column += input->width();
+                }
+
             // concatenate along channels
-            if(dimension == 1) {
+            } else if(dimension == 1) {
                 uint32_t output_channel_counter = 0;
 
                 for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
-- 
2.43.0


From 93ea7dc9a663d21845ac2b2a085d420d4af401b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 13/57] fix: softmax normalised over all samples of a batch
 together

---
 .../layers/activation_functions/softmax.cpp   | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pico-cnn/layers/activation_functions/softmax.cpp b/pico-cnn/layers/activation_functions/softmax.cpp
index b36f32d..21b5500 100644
--- a/pico-cnn/layers/activation_functions/softmax.cpp
+++ b/pico-cnn/layers/activation_functions/softmax.cpp
@@ -15,16 +15,24 @@ namespace pico_cnn {
         }
 
         void Softmax::activate(Tensor *input, Tensor *output) {
-            long double denominator = 0.0;
+            uint32_t num_batches = input->num_dimensions() > 1 ? input->shape_[0] : 1;
+            uint32_t num_elements = 1;
 
-            uint32_t num_elements = input->num_elements();
-
-            for(uint32_t i = 0; i < num_elements; i++) {
-                denominator += expl((long double)input->access_blob(i));
+            for(uint32_t dim = input->num_dimensions() > 1 ? 1 : 0; dim < input->num_dimensions(); dim++) {
+                num_elements *= input->shape_[dim];
             }
 
-            for(uint32_t i = 0; i < num_elements; i++) {
-                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i)) / denominator);
+            for(uint32_t batch = 0; batch < num_batches; batch++) {
+                long double denominator = 0.0;
+
+                for(uint32_t i = 0; i < num_elements; i++) {
+                    denominator += expl((long double)input->access_blob(batch * num_elements + i));
+                }
+
+                for(uint32_t i = 0; i < num_elements; i++) {
+                    output->access_blob(batch * num_elements + i) =
+                            (fp_t)(expl((long double)input->access_blob(batch * num_elements + i)) / denominator);
+                }
             }
         }
     }
-- 
2.43.0


From 5207a30f10c3670a477f30152b175d6927ed4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 14/57] fix: parameterised ReLU read past the end of a slope
 that is smaller than the input

---
 pico-cnn/layers/activation_functions/relu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/activation_functions/relu.cpp b/pico-cnn/layers/activation_functions/relu.cpp
index 68ab883..6f4440b 100644
--- a/pico-cnn/layers/activation_functions/relu.cpp
+++ b/pico-cnn/layers/activation_functions/relu.cpp
@@ -44,7 +44,7 @@ namespace pico_cnn {
         }
 
         void ParameterizedReLU::run(Tensor *input, Tensor *output) {
-            if (input->num_dimensions() != slope_->num_dimensions()){
+            if (input->num_dimensions() != slope_->num_dimensions() || input->num_elements() != slope_->num_elements()){
                 PRINT_ERROR_AND_DIE("Broadcasting is not supported at the moment.")
             } else {
                 this->activate(input, output);
-- 
2.43.0


From 0462f4c9e9424259101a09f0791a7fe81cd75518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 15/57] fix: readers closed a null handle and reported success
 for a file that cannot be opened

---
 pico-cnn/io/read_binary_reference_data.cpp | 6 ++++++
 pico-cnn/io/read_binary_weights.cpp        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..037c118 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -131,6 +131,9 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open sample data file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
@@ -229,6 +232,9 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open sample data file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..8e94f02 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -382,6 +382,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } else {
+        PRINT_ERROR("ERROR: Could not open weights file: " << path_to_weights_file)
+        return 1;
     }
     fclose(binary_file);
     return 0;
-- 
2.43.0


From 6fa156592d1e5047fdfc92db6dcbcaaf07bf698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 16/57] fix: readers released arrays with the wrong deallocator
 and left a file open on a short read

---
 pico-cnn/io/read_binary_reference_data.cpp |  5 +++--
 pico-cnn/io/read_binary_weights.cpp        | 18 +++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 037c118..4e895b1 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -102,7 +102,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -202,7 +203,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 8e94f02..04a25aa 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -125,7 +125,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -152,7 +152,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -178,7 +178,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -203,7 +203,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -228,7 +228,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -253,7 +253,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -299,7 +299,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -323,7 +323,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -347,7 +347,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From 0d76f7726043351d39e4c2c573390a8db96e24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 17/57] fix: weights reader wrote past its buffers for a name
 or type of 100 characters or more

---
 pico-cnn/io/read_binary_weights.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 04a25aa..7ac8052 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -33,6 +33,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
+            if(i >= sizeof(buffer)) {
+                PRINT_ERROR("ERROR: Name or type is too long")
+                fclose(binary_file);
+                return 1;
+            }
             buffer[i] = c;
         }
         buffer[i-1] = '\0'; //terminate string correctly
@@ -67,6 +72,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
+                if(i >= sizeof(buffer)) {
+                    PRINT_ERROR("ERROR: Name or type is too long")
+                    fclose(binary_file);
+                    return 1;
+                }
                 buffer[i] = c;
             }
             buffer[i-1] = '\0'; //terminate string correctly
@@ -81,6 +91,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
+                if(i >= sizeof(buffer_layer_type)) {
+                    PRINT_ERROR("ERROR: Name or type is too long")
+                    fclose(binary_file);
+                    return 1;
+                }
                 buffer_layer_type[i] = c;
             }
             buffer_layer_type[i-1] = '\0'; //terminate string correctly
-- 
2.43.0


From acf57b84e8d20fc3e3705a5b52ef6225545c681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 18/57] fix: weights reader aborted on a fully connected kernel
 shared with an earlier layer

---
 pico-cnn/io/read_binary_weights.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 7ac8052..c1ba0c2 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -306,10 +306,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
 
                 uint32_t kernel;
-                auto *values = new fp_t[kernel_height*kernel_width]();
 
-                if(num_kernels != 1)
-                    PRINT_ERROR_AND_DIE("Number of kernels != 1")
+                // A kernel that was already read for an earlier layer is not stored again.
+                if(num_kernels > 1)
+                    PRINT_ERROR_AND_DIE("Number of kernels > 1")
+
+                auto *values = new fp_t[kernel_height*kernel_width]();
 
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
@@ -321,7 +323,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
                 }
 
-                kernel_idx++;
+                kernel_idx += num_kernels;
 
                 delete[] values;
 
-- 
2.43.0


From f237929bf050a7040460922ef1d62a3f4fb1e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 19/57] fix: weights reader wrote past the end of a tensor
 smaller than the counts in the file

---
 pico-cnn/io/read_binary_weights.cpp | 56 +++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index c1ba0c2..e94b789 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -134,6 +134,14 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
+                    if(num_output_channels > (*kernels)[kernel_idx]->num_batches() ||
+                       num_input_channels > (*kernels)[kernel_idx]->num_channels() ||
+                       kernel_height*kernel_width > (*kernels)[kernel_idx]->height() * (*kernels)[kernel_idx]->width()) {
+                        PRINT_ERROR("ERROR: Kernel in weights file is larger than the kernel of the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {
@@ -163,6 +171,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(num_biases > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -189,6 +203,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
+                    if(num_gamma > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto* gamma_values = new fp_t[num_gamma]();
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
@@ -214,6 +234,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
+                    if(num_beta > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *beta_values = new fp_t[num_beta]();
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
@@ -239,6 +265,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
+                    if(num_mean > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *mean_values = new fp_t[num_mean]();
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
@@ -264,6 +296,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
+                    if(num_variance > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *variance_values = new fp_t[num_variance]();
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
@@ -311,6 +349,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 if(num_kernels > 1)
                     PRINT_ERROR_AND_DIE("Number of kernels > 1")
 
+                if(num_kernels == 1 && kernel_height*kernel_width > (*kernels)[kernel_idx]->num_elements()) {
+                    PRINT_ERROR("ERROR: Kernel in weights file is larger than the kernel of the network.")
+                    fclose(binary_file);
+                    return 1;
+                }
+
                 auto *values = new fp_t[kernel_height*kernel_width]();
 
                 for(kernel = 0; kernel < num_kernels; kernel++) {
@@ -336,6 +380,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
+                    if(num_biases > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -360,6 +410,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(num_biases > (*biases)[bias_idx]->num_elements()) {
+                        PRINT_ERROR("ERROR: More values in weights file than in the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
-- 
2.43.0


From 917905415b5ef440d59929e0cc4f4b6c934fac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 20/57] fix: label reader wrote past its array for a file with
 more labels than requested

---
 pico-cnn/io/read_imagenet_labels.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..68f26b4 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,13 +6,13 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = (char**) malloc(num_labels*sizeof(char*));
 
         char buffer[255];
-        int32_t i = 0;
+        uint32_t i = 0;
         int32_t label_length;
 
-        while(fgets(buffer, 255, labels_file)) {
+        while(i < num_labels && fgets(buffer, 255, labels_file)) {
             label_length = strlen(buffer);
             (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
             strncpy((*imagenet_labels)[i], buffer, label_length-1);
-- 
2.43.0


From 5391ba2bb2f6bd9ce7826de37ff7c9ae5ffb61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 21/57] fix: label reader cut off the last character of a line
 without a newline

---
 pico-cnn/io/read_imagenet_labels.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 68f26b4..710b62f 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -13,10 +13,10 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
         int32_t label_length;
 
         while(i < num_labels && fgets(buffer, 255, labels_file)) {
-            label_length = strlen(buffer);
-            (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
-            strncpy((*imagenet_labels)[i], buffer, label_length-1);
-            (*imagenet_labels)[i][label_length-1] = '\0';
+            label_length = strcspn(buffer, "\n");
+            (*imagenet_labels)[i] = (char*) malloc((label_length+1)*sizeof(char));
+            memcpy((*imagenet_labels)[i], buffer, label_length);
+            (*imagenet_labels)[i][label_length] = '\0';
             i++;
         }
 
-- 
2.43.0


From 78768a2f4c4612336983cad3f979bfae3da5bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 22/57] fix: validation label reader parsed uninitialised bytes
 and left out the last label

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..3b62efd 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -9,17 +9,21 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
         (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
 
         char buffer[255];
-        char label_buffer[6];
+        char label_buffer[5];
         uint32_t i = 1;
 
-        while(fgets(buffer, 255, labels_file) && i < num_labels) {
-            memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
+        while(i <= num_labels && fgets(buffer, 255, labels_file)) {
+            if(strlen(buffer) <= FILE_NAME_LENGTH+1) {
+                break;
+            }
+            strncpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
+            label_buffer[4] = '\0';
             (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
             i++;
         }
 
         fclose(labels_file);
-        return i;
+        return i-1;
     }
 
     return 0;
-- 
2.43.0


From 96256ce9af2477925b7f314afcda8eab3c01d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 23/57] fix: means reader returned an uninitialised mean for a
 truncated file

---
 pico-cnn/io/read_means.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_means.cpp b/pico-cnn/io/read_means.cpp
index eb0b9f9..6433200 100644
--- a/pico-cnn/io/read_means.cpp
+++ b/pico-cnn/io/read_means.cpp
@@ -25,13 +25,25 @@ int32_t read_means(const char* path_to_means_file, fp_t* means) {
         //fread(means, sizeof(fp_t), 3, means_file);
 
         fp_t mean;
-        fscanf(means_file, "%a\n", &mean);
+        if(fscanf(means_file, "%a\n", &mean) != 1) {
+            PRINT_ERROR("Failed to read mean.")
+            fclose(means_file);
+            return 1;
+        }
         means[0] = mean;
 
-        fscanf(means_file, "%a\n", &mean);
+        if(fscanf(means_file, "%a\n", &mean) != 1) {
+            PRINT_ERROR("Failed to read mean.")
+            fclose(means_file);
+            return 1;
+        }
         means[1] = mean;
 
-        fscanf(means_file, "%a\n", &mean);
+        if(fscanf(means_file, "%a\n", &mean) != 1) {
+            PRINT_ERROR("Failed to read mean.")
+            fclose(means_file);
+            return 1;
+        }
         means[2] = mean;
 
         fclose(means_file);
-- 
2.43.0


From be0f97275c361f7895b8d3810d04a8c610f41f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 24/57] fix: jpeg reader closed the file before the decoder was
 done with it

---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..6622b1f 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -64,9 +64,9 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
                 pos++;
             }
         }
-        fclose(jpeg_file);
         (void) jpeg_finish_decompress(&cinfo);
         jpeg_destroy_decompress(&cinfo);
+        fclose(jpeg_file);
 
         return 0;
     }
-- 
2.43.0


From 3fba94c83d5657e87de8413b3a09b7d4db8e5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 25/57] fix: MNIST readers used and reported data that a
 truncated file does not hold

---
 pico-cnn/io/read_mnist.cpp | 50 +++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9e458d1..9877ca5 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -23,7 +23,10 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
 
         uint32_t i;
 
-        fread(&magic_number, sizeof(magic_number), 1, images);
+        if(fread(&magic_number, sizeof(magic_number), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         magic_number = change_endianess(magic_number);
 
         // check magic number
@@ -32,13 +35,22 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             return 0;
         }
 
-        fread(&num_images_provided, sizeof(num_images_provided), 1, images);
+        if(fread(&num_images_provided, sizeof(num_images_provided), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         num_images_provided = change_endianess(num_images_provided);
 
-        fread(&height, sizeof(height), 1, images);
+        if(fread(&height, sizeof(height), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         height = change_endianess(height);
 
-        fread(&width, sizeof(width), 1, images);
+        if(fread(&width, sizeof(width), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         width = change_endianess(width);
 
         // if there are less images in the dataset than requested reduce
@@ -57,9 +69,14 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             (*mnist_images)[i] = (fp_t*) malloc((width+2*padding)*(height+2*padding)*sizeof(fp_t));
 
             uint32_t row, column;
-            uint8_t buffer[width*height];
+            uint8_t *buffer = new uint8_t[width*height]();
+
             // store single image
-            fread(&buffer, 1, height*width, images);
+            if(fread(buffer, 1, height*width, images) != height*width) {
+                delete[] buffer;
+                free((*mnist_images)[i]);
+                break;
+            }
 
             for(row = 0; row < height+2*padding; row++) {
                 for(column = 0; column < width+2*padding; column++) {
@@ -72,11 +89,13 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
                     }
                 }
             }
+
+            delete[] buffer;
         }
 
         fclose(images);
 
-        return num_images;
+        return i;
     }
 
     return 0;
@@ -93,7 +112,10 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         uint32_t i;
 
-        fread(&magic_number, sizeof(magic_number), 1, labels);
+        if(fread(&magic_number, sizeof(magic_number), 1, labels) != 1) {
+            fclose(labels);
+            return 0;
+        }
         magic_number = change_endianess(magic_number);
 
         // check magic number
@@ -102,7 +124,10 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
             return 0;
         }
 
-        fread(&num_labels_provided, sizeof(num_labels_provided), 1, labels);
+        if(fread(&num_labels_provided, sizeof(num_labels_provided), 1, labels) != 1) {
+            fclose(labels);
+            return 0;
+        }
         num_labels_provided = change_endianess(num_labels_provided);
 
         // if there are less labels in the dataset than requested reduce
@@ -116,13 +141,16 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         // start reading images
         for(i = 0; i < num_labels; i++) {
-            uint8_t label = getc(labels);
+            int32_t label = getc(labels);
+            if(label == EOF) {
+                break;
+            }
             (*mnist_labels)[i] = label;
         }
 
         fclose(labels);
 
-        return num_labels;
+        return i;
     }
 
     return 0;
-- 
2.43.0


From c463606c4f4fc4cbcf43876d5c3be5ae77e54250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 26/57] fix: pgm reader lost leading pixels that look like
 whitespace and invented pixels of a truncated file

---
 pico-cnn/io/read_pgm.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..fd40c47 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -9,9 +9,7 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         char buffer[100];
 
-        fgets(buffer, 100, pgm_file);
-
-        if(strcmp(buffer,"P5\n") != 0) {
+        if(fgets(buffer, 100, pgm_file) == nullptr || strcmp(buffer,"P5\n") != 0) {
             fclose(pgm_file);
             return 1;
         }
@@ -21,25 +19,39 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
         fp_t range = fabs(lower_bound - upper_bound);
 
         // skip comment
-        fgets(buffer, 100, pgm_file);
+        if(fgets(buffer, 100, pgm_file) == nullptr) {
+            fclose(pgm_file);
+            return 1;
+        }
         // read dimensions
-        fscanf(pgm_file, "%hu %hu\n", width, height);
-        // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        if(fscanf(pgm_file, "%hu %hu\n", width, height) != 2) {
+            fclose(pgm_file);
+            return 1;
+        }
+        // read max gray value, followed by a single whitespace character
+        if(fscanf(pgm_file, "%hhu", &max_gray_value) != 1 || fgetc(pgm_file) == EOF) {
+            fclose(pgm_file);
+            return 1;
+        }
 
         (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
 
-        uint16_t row, column;
-        uint8_t pixel;
+        uint32_t row, column;
+        int32_t pixel;
 
-        for(row = 0; row < (*height)+2*padding; row++) {
-            for(column = 0; column < (*width)+2*padding; column++) {
-                if(row < padding || row >= (*height)+padding) {
+        for(row = 0; row < (uint32_t) ((*height)+2*padding); row++) {
+            for(column = 0; column < (uint32_t) ((*width)+2*padding); column++) {
+                if(row < padding || row >= (uint32_t) ((*height)+padding)) {
                     (*image)[row*((*width)+2*padding)+column] = lower_bound;
-                } else if(column < padding || column >= (*width)+padding) {
+                } else if(column < padding || column >= (uint32_t) ((*width)+padding)) {
                     (*image)[row*((*width)+2*padding)+column] = lower_bound;
                 } else {
-                    pixel = (uint8_t) fgetc(pgm_file);
+                    pixel = fgetc(pgm_file);
+                    if(pixel == EOF) {
+                        free(*image);
+                        fclose(pgm_file);
+                        return 1;
+                    }
                     (*image)[row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);
                 }
             }
-- 
2.43.0


From b7328a45ddf4b265d41d4fb315ca8572a099621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 27/57] fix: pgm writer divided by zero for a constant image
 and misjudged values beyond 1000

---
 pico-cnn/io/write_pgm.cpp | 9 ++++++---
 pico-cnn/io/write_pgm.h   | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..c1ad58b 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = -std::numeric_limits<fp_t>::infinity();
+    fp_t min_gray_value = std::numeric_limits<fp_t>::infinity();
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
@@ -39,7 +39,10 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     for(row = 0; row < height; row++) {
         for(column = 0; column < width; column++) {
             // normalize
-            uint8_t pixel = (uint8_t) ( ( (image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            uint8_t pixel = 0;
+            if(gray_value_range > 0) {
+                pixel = (uint8_t) ( ( (image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            }
             fputc(pixel, pgm_file);
         }
     }
diff --git a/pico-cnn/io/write_pgm.h b/pico-cnn/io/write_pgm.h
index 7015047..51b2cec 100644
--- a/pico-cnn/io/write_pgm.h
+++ b/pico-cnn/io/write_pgm.h
@@ -11,6 +11,7 @@
 #include <cstdint>
 #include <cstdio>
 #include <cmath>
+#include <limits>
 
 /**
  * @brief creates an pgm file from an image (array)
-- 
2.43.0


From 845f812f8c918749ee738c27622c699482495258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 28/57] fix: writers reported success for an output that was
 not written

---
 pico-cnn/io/write_float.cpp | 6 +++++-
 pico-cnn/io/write_pgm.cpp   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/write_float.cpp b/pico-cnn/io/write_float.cpp
index eb42011..647e7a1 100644
--- a/pico-cnn/io/write_float.cpp
+++ b/pico-cnn/io/write_float.cpp
@@ -24,7 +24,11 @@ int32_t write_float(const fp_t* image, const uint16_t height, const uint16_t wid
         }
     }
 
-    fclose(float_file);
+    int32_t write_error = ferror(float_file);
+
+    if(fclose(float_file) != 0 || write_error) {
+        return 1;
+    }
 
     return 0;
 }
diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index c1ad58b..f4ed00a 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -47,8 +47,11 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
         }
     }
 
+    int32_t write_error = ferror(pgm_file);
 
-    fclose(pgm_file);
+    if(fclose(pgm_file) != 0 || write_error) {
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 8ad3b749b7f785c6299510ad5304fc739137041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 29/57] fix: generated 1-D layers passed arrays shorter than
 the constructors copy

---
 .../code_templates/conv/pico_cnn_conv1d_alloc.cpp      |  6 +++---
 .../code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp  | 10 +++++-----
 .../code_templates/pool/pico_cnn_max_pool1d_alloc.cpp  | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
index 6ae3194..39b3235 100644
--- a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
+++ b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
@@ -1,6 +1,6 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 0 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
@@ -12,7 +12,7 @@
                                                    {% endif %}
                                                    {{identifier}}_padding, {{identifier}}_stride, {{identifier}}_groups);
 {% else %}
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 0 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
diff --git a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
index b22c7bc..a58c464 100644
--- a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 0 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding, {{count_include_pad}});
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr, {{count_include_pad}});
diff --git a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
index 3b2cb05..ea456cb 100644
--- a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 0 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding);
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr);
-- 
2.43.0


From 3b4603839dfb35a0f30ba5fea7794ec82f89f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 30/57] fix: Gemm with an unsupported transposition was
 imported as if it were supported

---
 onnx_import/pico_cnn.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2732484..e58fd07 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -224,14 +224,12 @@ class FullyConnected(BaseLayer):
             if node.attrs['beta'] != 1.0:
                 print("ERROR: Generation of Gemm layer aborted: beta = {}".format(node.attrs['beta']))
                 return None
-        if 'tranA' in node.attrs:
-            if node.attrs['transA'] != 0:
-                print("ERROR: Generation of Gemm layer aborted: tranA = {}".format(node.attrs['tranA']))
-                return None
-        if 'tranB' in node.attrs:
-            if node.attrs['transB'] != 1:
-                print("ERROR: Generation of Gemm layer aborted: tranB = {}".format(node.attrs['tranB']))
-                return None
+        if node.attrs.get('transA', 0) != 0:
+            print("ERROR: Generation of Gemm layer aborted: transA = {}".format(node.attrs['transA']))
+            return None
+        if node.attrs.get('transB', 0) != 1:
+            print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
+            return None
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From ee8559993839f20486c2b58dddfb1e10d04e4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 31/57] fix: a dilated convolution was imported as if it were
 not dilated

---
 onnx_import/pico_cnn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index e58fd07..fd04f4e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -98,6 +98,10 @@ class Conv2D(BaseLayer):
 
         padding = attrs.get("pads", [0, 0, 0, 0])
 
+        if any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("{} dilations are currently not supported".format(node.name))
+            exit(1)
+
         if (kernel_shape[0] % 2) == 0 or (kernel_shape[1] % 2) == 0:
             print("PicoCNN only supports odd kernel sizes in 2D convolution")
             exit(1)
@@ -163,6 +167,10 @@ class Conv1D(BaseLayer):
 
         padding = attrs.get("pads", [0, 0])
 
+        if any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("{} dilations are currently not supported".format(node.name))
+            exit(1)
+
         if (kernel_shape[0] % 2) == 0:
             print("PicoCNN only supports odd kernel sizes in 2D convolution")
             exit(1)
-- 
2.43.0


From 3ba9874e82737a089155cf141724acd5b83bc29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 32/57] fix: pooling with ceil_mode, dilations or automatic
 padding was imported without them

---
 onnx_import/pico_cnn.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index fd04f4e..ac08683 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -306,6 +306,14 @@ class MaxPool2D(BaseLayer):
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
 
+        if attrs.get("auto_pad", b"NOTSET") != b"NOTSET":
+            print("{} auto padding is currently not supported".format(node.name))
+            exit(1)
+
+        if attrs.get("ceil_mode", 0) != 0 or any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("{} ceil_mode and dilations are currently not supported".format(node.name))
+            exit(1)
+
         padding = attrs.get("pads", (0, 0, 0, 0))
         padding_needed = False
         for num in padding:
@@ -353,6 +361,14 @@ class MaxPool1D(BaseLayer):
 
         stride = attrs["strides"]
 
+        if attrs.get("auto_pad", b"NOTSET") != b"NOTSET":
+            print("{} auto padding is currently not supported".format(node.name))
+            exit(1)
+
+        if attrs.get("ceil_mode", 0) != 0 or any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("{} ceil_mode and dilations are currently not supported".format(node.name))
+            exit(1)
+
         padding = attrs.get("pads", (0, 0))
         padding_needed = False
         for num in padding:
@@ -605,6 +621,14 @@ class AveragePool2D(BaseLayer):
 
         kernel_stride = attrs["strides"]
 
+        if attrs.get("auto_pad", b"NOTSET") != b"NOTSET":
+            print("{} auto padding is currently not supported".format(node.name))
+            exit(1)
+
+        if attrs.get("ceil_mode", 0) != 0 or any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("{} ceil_mode and dilations are currently not supported".format(node.name))
+            exit(1)
+
         padding = attrs.get("pads", (0, 0, 0, 0))
         padding_needed = False
         for num in padding:
@@ -661,7 +685,15 @@ class AveragePool1D(BaseLayer):
 
         kernel_stride = attrs["strides"]
 
-        padding = attrs["pads"]
+        if attrs.get("auto_pad", b"NOTSET") != b"NOTSET":
+            print("{} auto padding is currently not supported".format(node.name))
+            exit(1)
+
+        if attrs.get("ceil_mode", 0) != 0 or any(dilation != 1 for dilation in attrs.get("dilations", [])):
+            print("{} ceil_mode and dilations are currently not supported".format(node.name))
+            exit(1)
+
+        padding = attrs.get("pads", (0, 0))
         padding_needed = False
         for num in padding:
             if num != 0:
-- 
2.43.0


From ee5596f1167309770802dcc48bdf9fc7448d7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 33/57] fix: LRN and Softmax with an unsupported bias, size or
 axis were imported without them

---
 onnx_import/pico_cnn.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index ac08683..55455af 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1105,6 +1105,14 @@ class Softmax(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        num_dims = len(input_buffers[0].shape)
+        axis = attrs.get("axis", 1)
+        if axis < 0:
+            axis += num_dims
+        if num_dims > 1 and axis != 1:
+            print("ERROR: Softmax is only supported for axis = 1: axis = {}".format(axis))
+            exit(1)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -1144,6 +1152,11 @@ class LocalResponseNormalization(BaseLayer):
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if attrs.get("bias", 1.0) != 1.0 or attrs["size"] % 2 == 0:
+            print("ERROR: LRN only supports bias = 1.0 and an odd size: bias = {}, size = {}".format(
+                attrs.get("bias", 1.0), attrs["size"]))
+            exit(1)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 924c83b6cdc09b668d0c660e9dfd9a645edb1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 34/57] fix: multiplication by a one-element array generated
 code that does not compile

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 55455af..b010428 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -590,7 +590,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor
+        operation.attributes['factor'] = factor.item()
 
         return operation
 
-- 
2.43.0


From d70aa32983715fc84710075f699debd0533cf9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 35/57] fix: a reshape that drops trailing dimensions was
 removed as if it had no effect

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7625688..b5ad9a0 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -67,7 +67,7 @@ class BackendRep(backend_base.BackendRep):
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
                 is_nop = False
-                if reshape_state.value is not None:
+                if reshape_state.value is not None and len(reshape_state.value) == len(input_state.shape):
                     for i, dim in enumerate(reshape_state.value):
                         if dim == -1 and i == len(reshape_state.value):
                             is_nop = True
-- 
2.43.0


From caa79ef7eab199d350001c8a9cf03ce9e20894c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 36/57] fix: write an entry for every parameter of a layer,
 even if two of them share an initializer

---
 onnx_import/backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index b5ad9a0..680994c 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -168,7 +168,10 @@ class BackendRep(backend_base.BackendRep):
             else:
                 continue
 
-            for num, input in enumerate(node.input_tensors):
+            # A parameter that is used for several inputs of a node has an entry for each of them.
+            parameters = [input for input in node.inputs if input in node.input_tensors]
+
+            for num, input in enumerate(parameters):
 
                 if input in buffers_written:
                     write_buffer = False
@@ -265,7 +268,7 @@ class BackendRep(backend_base.BackendRep):
 
                 # This handles the case that no bias values are available in the onnx file.
                 # So we need to add num_biases = 0 into the binary file.
-                if len(node.input_tensors) == 1 and node.op_type != "Add":
+                if len(parameters) == 1 and node.op_type != "Add":
                     # print("No biases in onnx file.")
                     weights_packed.append(struct.pack('i', 0))
 
-- 
2.43.0


From 972be8a0bc27ffa7ac474c87e5cee22994e09673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 37/57] fix: refuse Gemm and MatMul nodes whose operands the
 generated layer cannot use

---
 onnx_import/pico_cnn.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index b010428..ab2087d 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -238,6 +238,14 @@ class FullyConnected(BaseLayer):
         if node.attrs.get('transB', 0) != 1:
             print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
             return None
+        if node.inputs[0] in node.input_tensors or any(graph.is_input(parameter) for parameter in node.inputs[1:]):
+            print("ERROR: Generation of Gemm layer aborted: the input has to be the first operand")
+            return None
+        if len(node.inputs) > 2:
+            bias_shape = tuple(graph.get_shape(node.inputs[2]))
+            if bias_shape != (graph.get_shape(node.inputs[1])[0],):
+                print("ERROR: Generation of Gemm layer aborted: bias of shape {}".format(bias_shape))
+                return None
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
@@ -537,6 +545,10 @@ class MatMul(BaseLayer):
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
 
+        if node.inputs[0] in node.input_tensors or graph.is_input(node.inputs[1]):
+            print("ERROR: Generation of MatMul layer aborted: the input has to be the first operand")
+            return None
+
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
-- 
2.43.0


From 86e015b867cba26f8534bef507533a42b9bf982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 38/57] fix: refuse to add a parameter that the weights file
 cannot hold

---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index ab2087d..df1e8d4 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1060,6 +1060,11 @@ class Add(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        for input_tensor in node.input_tensors.values():
+            if len(input_tensor.shape) != 1:
+                print("ERROR: Only one-dimensional parameters are supported for add operation")
+                exit(1)
+
         input_shapes = [b.shape for b in input_buffers]
         for shape in input_shapes:
             if shape != input_shapes[0]:
-- 
2.43.0


From 0f25b80edc380ff47839833ecf9aecfd9b033fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 39/57] fix: refuse negative padding

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index df1e8d4..f3d09bb 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1251,6 +1251,10 @@ class Pad(BaseLayer):
             print("ERROR: Pad layer only supported in mode constant (not: {}).").format(mode)
             exit(1)
 
+        if min(pads) < 0:
+            print("ERROR: Negative padding is not supported. pads = {}".format(pads))
+            exit(1)
+
         if len(input_shape) == 4:
             if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:
                 print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
-- 
2.43.0


From cf55bb2c208fca7731a4f4484c56706a6d7e9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 40/57] fix: keep the values of removed constant nodes as
 parameters of the nodes that use them

---
 onnx_import/backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 680994c..d3e34df 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -48,6 +48,11 @@ class BackendRep(backend_base.BackendRep):
             if is_constant:
                 graph.remove_node(node)
 
+        # The values of the removed nodes are parameters of the nodes that use them
+        for node in graph.nodes:
+            node.input_tensors = {input: constant_states[input].value for input in node.inputs
+                                  if input in constant_states and constant_states[input].value is not None}
+
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-- 
2.43.0


From 2172f24e30e6f56b41301b8991d4a5e9899e7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 41/57] fix: give every node and tensor of the model its own
 identifier in the generated code

---
 onnx_import/compute_graph.py | 44 +++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/onnx_import/compute_graph.py b/onnx_import/compute_graph.py
index 9c5a986..8f1a37d 100644
--- a/onnx_import/compute_graph.py
+++ b/onnx_import/compute_graph.py
@@ -1,3 +1,4 @@
+import re
 from collections import namedtuple
 from typing import Any, Text, Iterable, List, Dict
 from onnx import AttributeProto, numpy_helper
@@ -45,6 +46,34 @@ def _input_from_onnx_input(input) -> EdgeInfo:
     return EdgeInfo(name, type, shape)
 
 
+def _unique_identifier(name, used):
+    """
+    The names of nodes and tensors become part of the identifiers in the generated code.
+    :param name: Name used in the onnx model.
+    :param used: Set of all identifiers that are already taken, the new one is added.
+    :return: Unique name that only consists of characters that are allowed in an identifier.
+    """
+    identifier = re.sub('[^0-9A-Za-z_]', '_', name)
+    while identifier in used:
+        identifier += '_'
+    used.add(identifier)
+    return identifier
+
+
+class TensorNames(object):
+    """
+    Unique names of all tensors of the onnx model.
+    """
+    def __init__(self):
+        self.names = {"": ""}
+        self.used = set()
+
+    def __getitem__(self, name):
+        if name not in self.names:
+            self.names[name] = _unique_identifier(name, self.used)
+        return self.names[name]
+
+
 class Attributes(Dict[Text, Any]):
     """
     Custom dictionary object containing the parsed information from the protobuf attributes.
@@ -103,8 +132,11 @@ class ComputeGraph(object):
         :param graph: The graph stored in the onnx file.
         :return: ComputeGraph representing the CNN.
         """
+        tensor_names = TensorNames()
+        node_names = set()
+
         input_tensors = {
-            t.name: numpy_helper.to_array(t) for t in graph.initializer
+            tensor_names[t.name]: numpy_helper.to_array(t) for t in graph.initializer
         }
 
         # Dictionary to hold the "value_info" field from ONNX graph
@@ -118,6 +150,10 @@ class ComputeGraph(object):
         nodes_by_output: Dict[str, ComputeNode] = {}
         for node in graph.node:
             node_ = ComputeNode.from_onnx(node)
+            # An identifier does not start with a digit
+            node_.name = _unique_identifier(re.sub('^(?=[0-9])', 'layer_', node_.name), node_names)
+            node_.inputs = [tensor_names[name] for name in node_.inputs]
+            node_.outputs = [tensor_names[name] for name in node_.outputs]
             for input_ in node_.inputs:
                 if input_ in input_tensors:
                     node_.input_tensors[input_] = input_tensors[input_]
@@ -134,14 +170,16 @@ class ComputeGraph(object):
 
         inputs = []
         for i in graph.input:
-            if i.name not in input_tensors:
+            if tensor_names[i.name] not in input_tensors:
                 inp = _input_from_onnx_input(i)
+                inp = inp._replace(name=tensor_names[i.name])
                 inputs.append(inp)
                 shape_dict[inp.name] = inp.shape
 
         outputs = []
         for o in graph.output:
             out = _input_from_onnx_input(o)
+            out = out._replace(name=tensor_names[o.name])
             outputs.append(out)
             shape_dict[out.name] = out.shape
 
@@ -156,7 +194,7 @@ class ComputeGraph(object):
         def extract_value_info(shape_dict, value_info):
             t = tuple([int(dim.dim_value) for dim in value_info.type.tensor_type.shape.dim])
             if t:
-                shape_dict[value_info.name] = t
+                shape_dict[tensor_names[value_info.name]] = t
 
         for value_info in graph.value_info:
             extract_value_info(shape_dict, value_info)
-- 
2.43.0


From 7a84619dfc1df234a135c033ae60f740d1750f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 42/57] fix: generate code for Unsqueeze, the layers that
 follow it depend on the shape it makes

---
 onnx_import/backend.py  | 12 ------------
 onnx_import/pico_cnn.py | 11 +++++++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index d3e34df..5e7dd13 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -56,18 +56,6 @@ class BackendRep(backend_base.BackendRep):
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-            if node.op_type == "Unsqueeze":
-                inp = node.inputs[0]
-                out = node.outputs[0]
-
-                print("Removing nop", node.name)
-                graph.nodes.remove(node)
-
-                for node in graph.nodes:
-                    for num, input in enumerate(node.inputs):
-                        if input == out:
-                            node.inputs[num] = inp
-
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index f3d09bb..7568759 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1226,6 +1226,17 @@ class Squeeze(BaseLayer):
 OperationRegistry.register(Squeeze)
 
 
+class Unsqueeze(Squeeze):
+    """
+    Insert single-dimensional entries into the shape of a tensor.
+    """
+    name = "UnsqueezeGeneric"
+    operator = "Unsqueeze"
+
+
+OperationRegistry.register(Unsqueeze)
+
+
 class Pad(BaseLayer):
     name = "PicoCNNPad"
     operator = "Pad"
-- 
2.43.0


From c49dc8f922d7ae8d85247491773d5bc954121730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 43/57] fix: refuse networks that use their input as parameter
 or as output

---
 onnx_import/backend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 5e7dd13..076c0fd 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -525,6 +525,14 @@ class BackendRep(backend_base.BackendRep):
         self._remove_constants(graph, constant_states)
         self._remove_nops(graph, constant_states)
 
+        for node in graph.nodes:
+            if node.op_type in ('Conv', 'BatchNormalization') and any(graph.is_input(i) for i in node.inputs[1:]):
+                print("ERROR: The input of the network cannot be a parameter of layer {}".format(node.name))
+                exit(1)
+        if any(graph.is_input(output.name) for output in graph.outputs):
+            print("ERROR: The output of the network is its input")
+            exit(1)
+
         # Add shape information from constant propagation:
         for var, res in constant_states.items():
             if var in graph.shape_dict:
-- 
2.43.0


From 55f0dc1c3e37629fc7869f7be2ac352ec8a9cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 44/57] fix: removing a constant node keeps the node that
 computes the network output

The shape of the output taken by an otherwise unused node made the node that
computes the output a dead parent, so the network never wrote its output.
---
 onnx_import/compute_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/compute_graph.py b/onnx_import/compute_graph.py
index 8f1a37d..5f0dbfb 100644
--- a/onnx_import/compute_graph.py
+++ b/onnx_import/compute_graph.py
@@ -210,7 +210,7 @@ class ComputeGraph(object):
 
         for parent in node.parents:
             parent.children.remove(node)
-            if not parent.children:
+            if not parent.children and not any(self.is_output(output) for output in parent.outputs):
                 self.remove_node(parent)
 
         for child in node.children:
-- 
2.43.0


From 2fe39ba56e125190f4aee1eadda27c682e4c2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 45/57] fix: a reshape without effect at the output is removed
 when its input shape is not stated

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 076c0fd..f6bcb5d 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -80,7 +80,7 @@ class BackendRep(backend_base.BackendRep):
                     for num, output in enumerate(graph.outputs):
                         if output.name == removed_output:
                             edge_type = output.type
-                            shape = graph.shape_dict[removed_input]
+                            shape = input_state.shape
                             new_output = EdgeInfo(removed_input, edge_type, shape)
                             graph.outputs[num] = new_output
 
-- 
2.43.0


From b59fb5408331aa19910d0ebab20c08bb09ae5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 46/57] fix: generated main programs overflow a buffer of 1024
 characters with a longer path argument

---
 onnx_import/code_templates/main_program/dummy_input.cpp  | 3 +--
 .../code_templates/main_program/reference_input.cpp      | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 9d50311..0112dce 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -24,8 +24,7 @@ int32_t main(int32_t argc, char** argv) {
 
     std::srand(std::time(0));
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
     int32_t RUNS = atoi(argv[2]);
 
diff --git a/onnx_import/code_templates/main_program/reference_input.cpp b/onnx_import/code_templates/main_program/reference_input.cpp
index 1a6bfa6..45289f0 100644
--- a/onnx_import/code_templates/main_program/reference_input.cpp
+++ b/onnx_import/code_templates/main_program/reference_input.cpp
@@ -20,14 +20,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
-    char sample_input_path[1024];
-    strcpy(sample_input_path, argv[2]);
+    const char *sample_input_path = argv[2];
 
-    char sample_output_path[1024];
-    strcpy(sample_output_path, argv[3]);
+    const char *sample_output_path = argv[3];
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From 8def718f268235d60e4552c34a71b198193b174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 47/57] fix: reference data of audio for a shape of four
 dimensions has the wrong height and width

---
 util/generate_reference_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 283997d..a192603 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -109,8 +109,12 @@ def main():
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
         packed_input.append(struct.pack('i', input_shape[0]))  # Number of batches
         packed_input.append(struct.pack('i', input_shape[1]))  # Number of channels
-        packed_input.append(struct.pack('i', 1))  # Channel height
-        packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
+        if len(input_shape) == 4:
+            packed_input.append(struct.pack('i', input_shape[2]))  # Channel height
+            packed_input.append(struct.pack('i', input_shape[3]))  # Channel width
+        else:
+            packed_input.append(struct.pack('i', 1))  # Channel height
+            packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
         packed_input.append(struct.pack('f' * len(input_data), *input_data))  # Data
 
         tupac = bytes("end\n", "ascii")
-- 
2.43.0


From 7fc8610a3f93415f32f4df436d2d48d1f161dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 48/57] fix: README puts -ljpeg before the static library that
 needs it, where the linker drops it

---
 README.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index fc3dc41..ff86025 100644
--- a/README.md
+++ b/README.md
@@ -186,7 +186,7 @@ Copy `examples/alexnet.cpp` to `onnx_import/generated_code/alexnet`.
 ```bash
 cd generated_code/alexnet
 ```
-Add `-ljpeg` to `LDFLAGS` in `Makefile`
+Add `-ljpeg` to `LD_LIBS` in `Makefile`
 ```bash
 make alexnet
 ./alexnet network.weights.bin PATH_TO_IMAGE_MEANS PATH_TO_LABELS PATH_TO_IMAGE
@@ -204,7 +204,7 @@ Copy `examples/vgg.cpp` to `onnx_import/generated_code/vgg16.cpp`.
 ```bash
 cd generated_code/vgg16
 ```
-Add `-ljpeg` to `LDFLAGS` in `Makefile`
+Add `-ljpeg` to `LD_LIBS` in `Makefile`
 ```bash
 make vgg16
 ./vgg16 network.weights.bin PATH_TO_IMAGE_MEANS PATH_TO_LABELS PATH_TO_IMAGE
@@ -222,7 +222,7 @@ Copy `examples/vgg.cpp` to `onnx_import/generated_code/vgg19.cpp`.
 ```bash
 cd generated_code/vgg19
 ```
-Add `-ljpeg` to `LDFLAGS` in `Makefile`
+Add `-ljpeg` to `LD_LIBS` in `Makefile`
 ```bash
 make vgg19
 ./vgg19 network.weights.bin PATH_TO_IMAGE_MEANS PATH_TO_LABELS PATH_TO_IMAGE
-- 
2.43.0


From ef6782cbe3107fa00336ffeb3e2aec6742a580ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 49/57] fix: a weights file with more parameters than the
 network makes the reader use tensors beyond its arrays

---
 onnx_import/backend.py              |  7 ++++---
 pico-cnn/io/read_binary_weights.cpp | 21 +++++++++++----------
 pico-cnn/io/read_binary_weights.h   |  9 +++++++++
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index f6bcb5d..1073da3 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -314,9 +314,10 @@ class BackendRep(backend_base.BackendRep):
                         else:
                             num_kernels += 1
 
-        """The arrays kernels and biases will be used to pass only two variables to read_binary_weights"""
-        constructor_code += "    kernels = new pico_cnn::naive::Tensor*[{}]();\n".format(num_kernels)
-        constructor_code += "    biases = new pico_cnn::naive::Tensor*[{}]();\n\n".format(num_biases)
+        """The arrays kernels and biases will be used to pass only two variables to read_binary_weights.
+           A null pointer behind the last tensor tells read_binary_weights where they end."""
+        constructor_code += "    kernels = new pico_cnn::naive::Tensor*[{}]();\n".format(num_kernels + 1)
+        constructor_code += "    biases = new pico_cnn::naive::Tensor*[{}]();\n\n".format(num_biases + 1)
 
         pos = -1
         pos_kernel = -1
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index e94b789..2d57cc5 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -134,9 +134,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
-                    if(num_output_channels > (*kernels)[kernel_idx]->num_batches() ||
+                    if(!(*kernels)[kernel_idx] ||
+                       num_output_channels > (*kernels)[kernel_idx]->num_batches() ||
                        num_input_channels > (*kernels)[kernel_idx]->num_channels() ||
-                       kernel_height*kernel_width > (*kernels)[kernel_idx]->height() * (*kernels)[kernel_idx]->width()) {
+                       (uint64_t) kernel_height*kernel_width > (*kernels)[kernel_idx]->height() * (*kernels)[kernel_idx]->width()) {
                         PRINT_ERROR("ERROR: Kernel in weights file is larger than the kernel of the network.")
                         fclose(binary_file);
                         return 1;
@@ -171,7 +172,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
-                    if(num_biases > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_biases > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
@@ -203,7 +204,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
-                    if(num_gamma > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_gamma > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
@@ -234,7 +235,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
-                    if(num_beta > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_beta > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
@@ -265,7 +266,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
-                    if(num_mean > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_mean > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
@@ -296,7 +297,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
-                    if(num_variance > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_variance > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
@@ -349,7 +350,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 if(num_kernels > 1)
                     PRINT_ERROR_AND_DIE("Number of kernels > 1")
 
-                if(num_kernels == 1 && kernel_height*kernel_width > (*kernels)[kernel_idx]->num_elements()) {
+                if(num_kernels == 1 && (!(*kernels)[kernel_idx] || (uint64_t) kernel_height*kernel_width > (*kernels)[kernel_idx]->num_elements())) {
                     PRINT_ERROR("ERROR: Kernel in weights file is larger than the kernel of the network.")
                     fclose(binary_file);
                     return 1;
@@ -380,7 +381,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
-                    if(num_biases > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_biases > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
@@ -410,7 +411,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
-                    if(num_biases > (*biases)[bias_idx]->num_elements()) {
+                    if(!(*biases)[bias_idx] || num_biases > (*biases)[bias_idx]->num_elements()) {
                         PRINT_ERROR("ERROR: More values in weights file than in the network.")
                         fclose(binary_file);
                         return 1;
diff --git a/pico-cnn/io/read_binary_weights.h b/pico-cnn/io/read_binary_weights.h
index 426caf6..c99b09b 100644
--- a/pico-cnn/io/read_binary_weights.h
+++ b/pico-cnn/io/read_binary_weights.h
@@ -15,6 +15,15 @@
 
 #include "../tensor.h"
 
+/**
+ * @brief reads a binary weights file into the kernels and biases of a network
+ *
+ * @param path_to_weights_file full path to the weights file
+ * @param kernels array of the network's kernels, terminated by a nullptr
+ * @param biases array of the network's biases, terminated by a nullptr
+ *
+ * @return error (0 = success, 1 = error)
+ */
 int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::Tensor ***kernels, pico_cnn::naive::Tensor ***biases);
 
 #endif //PICO_CNN_READ_BINARY_WEIGHTS_H
-- 
2.43.0


From 718a37c2cc6638b7b487fbafd3c2312da7079416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 50/57] fix: large image sizes in an MNIST header overflow and
 the images are written outside their buffer

---
 pico-cnn/io/read_mnist.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9877ca5..356c7e1 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -66,13 +66,17 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
         for(i = 0; i < num_images; i++) {
 
             // allocate memory for single image
-            (*mnist_images)[i] = (fp_t*) malloc((width+2*padding)*(height+2*padding)*sizeof(fp_t));
+            (*mnist_images)[i] = (fp_t*) malloc(((size_t) width+2*padding)*((size_t) height+2*padding)*sizeof(fp_t));
+            if((*mnist_images)[i] == nullptr) {
+                break;
+            }
 
             uint32_t row, column;
-            uint8_t *buffer = new uint8_t[width*height]();
+            size_t image_size = (size_t) height*width;
+            uint8_t *buffer = new uint8_t[image_size]();
 
             // store single image
-            if(fread(buffer, 1, height*width, images) != height*width) {
+            if(fread(buffer, 1, image_size, images) != image_size) {
                 delete[] buffer;
                 free((*mnist_images)[i]);
                 break;
-- 
2.43.0


From 641267d9c97421d4e526d08532cf7ab58d290a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 51/57] fix: the size of a large PGM image overflows and a
 failed allocation is written to

---
 pico-cnn/io/read_pgm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index fd40c47..42e6a80 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -34,7 +34,11 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
             return 1;
         }
 
-        (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
+        (*image) = (fp_t*) malloc((size_t) ((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
+        if((*image) == nullptr) {
+            fclose(pgm_file);
+            return 1;
+        }
 
         uint32_t row, column;
         int32_t pixel;
-- 
2.43.0


From 50ba4507bd0e61de8183c65ab3ad965b35b0effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 52/57] fix: rows of wide JPEG images are longer than the
 buffer they are decoded into

---
 pico-cnn/io/read_jpeg.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index 6622b1f..3558a89 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -14,7 +14,7 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         struct jpeg_error_mgr jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
         cinfo.err = jpeg_std_error(&jerr);
@@ -28,11 +28,21 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
 
         (*image) = (fp_t**) malloc(3*sizeof(fp_t*));
         // red
-        (*image)[2] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[2] = (fp_t*) malloc((size_t) (*height)*(*width)*sizeof(fp_t));
         // green
-        (*image)[1] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[1] = (fp_t*) malloc((size_t) (*height)*(*width)*sizeof(fp_t));
         // blue
-        (*image)[0] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[0] = (fp_t*) malloc((size_t) (*height)*(*width)*sizeof(fp_t));
+
+        if((*image)[0] == nullptr || (*image)[1] == nullptr || (*image)[2] == nullptr) {
+            free((*image)[0]);
+            free((*image)[1]);
+            free((*image)[2]);
+            free(*image);
+            jpeg_destroy_decompress(&cinfo);
+            fclose(jpeg_file);
+            return 1;
+        }
 
         row_stride = (*width) * cinfo.output_components;
         jpeg_buffer = (*cinfo.mem->alloc_sarray) ((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
-- 
2.43.0


From 7a02c86bbb9515f9a28e7aecde3c5eee415df051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 53/57] fix: ImageNet labels longer than the line buffer were
 split into several labels

---
 pico-cnn/io/read_imagenet_labels.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 710b62f..e04cfcd 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -16,7 +16,15 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
             label_length = strcspn(buffer, "\n");
             (*imagenet_labels)[i] = (char*) malloc((label_length+1)*sizeof(char));
             memcpy((*imagenet_labels)[i], buffer, label_length);
-            (*imagenet_labels)[i][label_length] = '\0';
+            // a line longer than the buffer is continued by the next reads
+            uint32_t length = label_length;
+            while(buffer[label_length] != '\n' && fgets(buffer, 255, labels_file)) {
+                label_length = strcspn(buffer, "\n");
+                (*imagenet_labels)[i] = (char*) realloc((*imagenet_labels)[i], (length+label_length+1)*sizeof(char));
+                memcpy((*imagenet_labels)[i]+length, buffer, label_length);
+                length += label_length;
+            }
+            (*imagenet_labels)[i][length] = '\0';
             i++;
         }
 
-- 
2.43.0


From 93ad3850325fe6f32111918e7e643c6be2ac396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 54/57] fix: the rest of a long validation label line was read
 as further labels

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index 3b62efd..c0e2846 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -19,6 +19,8 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
             strncpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
             label_buffer[4] = '\0';
             (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
+            // skip the rest of a line longer than the buffer
+            while(!strchr(buffer, '\n') && fgets(buffer, 255, labels_file)) {}
             i++;
         }
 
-- 
2.43.0


From ddae0ed5e38e9b2fb3ee023385b9d8df9b9cafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 55/57] fix: a weights file with a model or layer name of 100
 characters or more was refused

---
 pico-cnn/io/read_binary_weights.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 2d57cc5..32a5e06 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -33,14 +33,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
-            if(i >= sizeof(buffer)) {
-                PRINT_ERROR("ERROR: Name or type is too long")
-                fclose(binary_file);
-                return 1;
+            // only the beginning of a long name is kept
+            if(i < sizeof(buffer)) {
+                buffer[i] = c;
             }
-            buffer[i] = c;
         }
-        buffer[i-1] = '\0'; //terminate string correctly
+        buffer[(i < sizeof(buffer) ? i : sizeof(buffer))-1] = '\0'; //terminate string correctly
 
         PRINT_DEBUG(buffer)
 
@@ -72,14 +70,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                if(i >= sizeof(buffer)) {
-                    PRINT_ERROR("ERROR: Name or type is too long")
-                    fclose(binary_file);
-                    return 1;
+                // only the beginning of a long name is kept
+                if(i < sizeof(buffer)) {
+                    buffer[i] = c;
                 }
-                buffer[i] = c;
             }
-            buffer[i-1] = '\0'; //terminate string correctly
+            buffer[(i < sizeof(buffer) ? i : sizeof(buffer))-1] = '\0'; //terminate string correctly
 
             // Read layer type
             char buffer_layer_type[100];
-- 
2.43.0


From 8528fbf1719497a553514af0059b4167362aac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 56/57] fix: infinite bounds, factors and padding values of a
 model gave generated code that does not compile

---
 onnx_import/pico_cnn.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 7568759..30352f5 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -4,6 +4,7 @@ from utils import reduce_mult
 
 from jinja2 import Environment, FileSystemLoader
 
+import math
 import os
 
 base_dir = os.path.dirname(os.path.abspath(__file__))
@@ -14,6 +15,17 @@ template_env = Environment(loader=FileSystemLoader(template_dir))
 __author__ = "Christoph Gerum, Alexander Jung (University of Tuebingen, Chair for Embedded Systems)"
 
 
+def float_literal(value):
+    """
+    The name of a number that is not finite differs between Python and the generated code.
+    """
+    if math.isinf(value):
+        return "INFINITY" if value > 0 else "-INFINITY"
+    if math.isnan(value):
+        return "NAN"
+    return value
+
+
 class BaseLayer(object):
     """
     Base layer class to inherit from. Operator implementations see below.
@@ -524,8 +536,8 @@ class Clip(BaseLayer):
         operation.attributes['identifier'] = identifier
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['min'] = attrs['min']
-        operation.attributes['max'] = attrs['max']
+        operation.attributes['min'] = float_literal(attrs['min'])
+        operation.attributes['max'] = float_literal(attrs['max'])
 
         return operation
 
@@ -602,7 +614,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor.item()
+        operation.attributes['factor'] = float_literal(factor.item())
 
         return operation
 
@@ -1290,7 +1302,7 @@ class Pad(BaseLayer):
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
         operation.attributes['padding'] = pads
-        operation.attributes['initializer'] = value
+        operation.attributes['initializer'] = float_literal(value)
 
         return operation
 
-- 
2.43.0


From e620a6861ffd2b7a1724666677e9c4bbe217979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 57/57] fix: joining constants of several elements while
 computing shapes raised an exception

---
 onnx_import/constprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/constprop.py b/onnx_import/constprop.py
index 1d7776b..9800001 100644
--- a/onnx_import/constprop.py
+++ b/onnx_import/constprop.py
@@ -302,7 +302,7 @@ def constant_propagation(graph):
             out = ConstPropState(None, input_shapes[0] if None not in input_shapes else None)
 
             # TODO: Is this first case even possible? If not, remove it!
-            if None not in input_states:
+            if all(state is not None for state in input_states):
                 res = np.concatenate(input_states, axis=axis)
                 out = ConstPropState(res, res.shape)
             else:
-- 
2.43.0

