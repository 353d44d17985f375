From 9adb360bc64c8e88e6670d717fa9613e7de3f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 01/61] fix: leaky_relu, prelu and elu name a serializer that
 does not exist

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..4bb8bd2 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -419,7 +419,7 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
-                                        make_argumented_unary_operator_serializer( factor )
+                                        make_argumented_operator_serializer( factor )
                     )( ex );
         };
     }
@@ -473,7 +473,7 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
-                                        make_argumented_unary_operator_serializer( alpha )
+                                        make_argumented_operator_serializer( alpha )
                     )( ex );
         };
     }
-- 
2.43.0


From 0408a7af7e8183accf7e70b06df4ec20a08ac6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 02/61] fix: gradient of elu is grad * alpha * exp(input)

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 4bb8bd2..c0e23b5 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -469,7 +469,7 @@ namespace ceras
                                         {
                                             typedef typename Tsor::value_type value_type;
                                             Tsor ans = grad;// OK for shallow copy
-                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : static_cast<value_type>( v_back*alpha*std::exp(v_in) ); } );
                                             return ans;
                                         },
                                         "elu",
-- 
2.43.0


From ec1b2869471084ffc915a25685b52fad4930e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 03/61] fix: softmax backward ignores the off-diagonal part of
 the Jacobian

---
 include/activation.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c0e23b5..25a9e85 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,8 +108,15 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
-                                        Tsor ans = grad;
-                                        for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
+                                        Tsor ans = deep_copy( grad );
+                                        std::size_t const last_dim = *(output.shape().rbegin());
+                                        std::size_t const rest_dim = output.size() / last_dim;
+                                        for ( auto idx : range( rest_dim ) ) // row-wise Jacobian product: o * ( g - <g, o> )
+                                        {
+                                            auto [begin, end, out] = std::make_tuple( ans.begin()+idx*last_dim, ans.begin()+(idx+1)*last_dim, output.begin()+idx*last_dim );
+                                            typename Tsor::value_type const inner = std::inner_product( begin, end, out, typename Tsor::value_type{0} );
+                                            for_each( begin, end, out, [inner]( auto& a, auto o ) { a = o * ( a - inner ); } );
+                                        }
                                         return ans;
                                     },
                                     "softmax"
-- 
2.43.0


From 72bd685de8a5e725497e6b5ec9f2df564a4857c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 04/61] fix: gradient of softplus is 1/(1+exp(-x))

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 25a9e85..b867dd9 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -198,7 +198,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() ); // 1 / ( 1 + exp(-x) )
-                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} - std::exp(-i) ); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} + std::exp(-i) ); } );
                                         return ans;
                                     },
                                     "softplus"
-- 
2.43.0


From 06b319b79833cbb0f25693eabe2d6601f8f41e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 05/61] fix: gelu backward differentiates at the upstream
 gradient instead of at the input

---
 include/activation.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index b867dd9..c463935 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -589,7 +589,8 @@ namespace ceras
         {
             auto const sq_2_pi_x = 0.79788456080286535588 * x;
             auto const _xx = x * x;
-            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) * ( 1.0 + 0.134145 * _xx) );
+            auto const arg = sq_2_pi_x * ( 1.0 + 0.044715 * _xx );
+            auto const ans = 0.5 * ( 1.0 + std::tanh( arg ) ) + 0.5 * sq_2_pi_x * sech_2( arg ) * ( 1.0 + 0.134145 * _xx );
             return static_cast<T>( ans );
         };
 
@@ -604,11 +605,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        Tsor ans = deep_copy( grad );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& a, auto x ) {  a *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From e9b482175e1da99b695d964156e8ba209bcac5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 06/61] fix: mish and lisht are element-wise, not matrix
 products

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c463935..efffa5a 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -681,7 +681,7 @@ namespace ceras
     template< Expression Ex >
     auto mish( Ex const& ex ) noexcept
     {
-        return ex*tanh(softplus(ex));
+        return hadamard_product( ex, tanh( softplus( ex ) ) );
     }
 
 
@@ -696,7 +696,7 @@ namespace ceras
     template< Expression Ex >
     auto lisht( Ex const& ex ) noexcept
     {
-        return ex*tanh(ex);
+        return hadamard_product( ex, tanh( ex ) );
     }
 
 }//namespace ceras
-- 
2.43.0


From 226fcce8791081d8ed62418547f475e07864d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 07/61] fix: gradient of log1p is 1/(1+x)

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..fa5745b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4409,7 +4409,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / x; } );
+                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / ( 1 + x ); } );
                                         return ans;
                                     },
                                     "log1p"
-- 
2.43.0


From df94bbc51776338181c9bf0c7c0987dafff1506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 08/61] fix: atan2 backward has both signs flipped

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index fa5745b..127bde2 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2576,7 +2576,7 @@ namespace ceras
                 l_ans.resize( lhs_input.shape() );
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
-                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = -g*y/c; r = g*x/c; } );
+                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = g*y/c; r = -g*x/c; } );
                 return std::make_tuple( l_ans, r_ans );
             },
             "atan2"
-- 
2.43.0


From 742d6337b2ee6b24175cf415a78c8236d5f268ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 09/61] fix: an operator used more than once loses its forward
 data and backpropagates from empty tensors

---
 include/operation.hpp | 70 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 127bde2..0520bf5 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,34 +64,31 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_; // shared: all copies of an operator have a single entry in the forward cache
+            tensor_type output_data_;
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
-        tensor_type output_data_;
-
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            state_->output_data_= sess.query_forward_cache( (*this).id() );
 
-            if ( output_data_.empty() )
+            if ( state_->output_data_.empty() )
             {
-                input_data_ = op().forward();
-                output_data_ = forward_action()( input_data_ );
-                sess.update_forward_cache( (*this).id(), output_data_ );
+                state_->input_data_ = op().forward();
+                state_->output_data_ = forward_action()( state_->input_data_ );
+                sess.update_forward_cache( (*this).id(), state_->output_data_ );
             }
 
-            return output_data_;
+            return state_->output_data_;
         }
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( state_->input_data_, state_->output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -106,8 +105,8 @@ namespace ceras
         Backward_Action const& backward_action() const { return state_->backward_action_; }
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
-        tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type input_data() { return state_->input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +144,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,47 +154,44 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_; // shared: all copies of an operator have a single entry in the forward cache
+            tensor_type rhs_input_data_;
+            tensor_type output_data_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
-        tensor_type output_data_;
-
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
             state_{ std::make_shared<binary_operator_state>(lhs_op, rhs_op, forward_action, backward_action, output_shape_calculator, serializer) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
-            output_data_= sess.query_forward_cache( (*this).id() );
+            state_->output_data_= sess.query_forward_cache( (*this).id() );
 
-            if ( !output_data_.empty() )
-                return output_data_;
+            if ( !state_->output_data_.empty() )
+                return state_->output_data_;
 
             static_assert( !(is_value_v<Lhs_Operator> && is_value_v<Rhs_Operator>), "Not valid for two values" );
 
             if constexpr ( is_value_v<Lhs_Operator> )
             {
-                rhs_input_data_ = rhs_op().forward();
-                lhs_input_data_ = lhs_op().forward( rhs_input_data_ );
+                state_->rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward( state_->rhs_input_data_ );
             }
             else if constexpr ( is_value_v<Rhs_Operator> )
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward( lhs_input_data_ );
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward( state_->lhs_input_data_ );
             }
             else
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward();
             }
 
-            output_data_ = forward_action()( lhs_input_data_, rhs_input_data_ );
-            sess.update_forward_cache( (*this).id(), output_data_ );
-            return output_data_;
+            state_->output_data_ = forward_action()( state_->lhs_input_data_, state_->rhs_input_data_ );
+            sess.update_forward_cache( (*this).id(), state_->output_data_ );
+            return state_->output_data_;
         }
 
         ///
@@ -201,7 +199,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -234,9 +232,9 @@ namespace ceras
         Output_Shape_Calculator& output_shape_calculator() { return state_->output_shape_calculator_; }
         Serializer& serializer() { return state_->serializer_; }
 
-        tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type lhs_input_data() { return state_->lhs_input_data_; }
+        tensor_type rhs_input_data() { return state_->rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From 8e37b3762644a87e2987311db6933eb79bd2c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 10/61] fix: leaky_relu and elu pass their serializer in the
 place of the shape calculator

---
 include/activation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/activation.hpp b/include/activation.hpp
index efffa5a..e1ed4c2 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -426,6 +426,7 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
+                                        identity_output_shape_calculator{},
                                         make_argumented_operator_serializer( factor )
                     )( ex );
         };
@@ -480,6 +481,7 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
+                                        identity_output_shape_calculator{},
                                         make_argumented_operator_serializer( alpha )
                     )( ex );
         };
-- 
2.43.0


From aa1fb63363829231318f93ac7f59763d20afdc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 11/61] fix: iterators of two different temporary shape vectors
 are paired, and concatenate swaps its operands when the first has fewer
 dimensions

---
 include/operation.hpp |  3 ++-
 include/tensor.tcc    | 29 ++++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0520bf5..f635795 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2409,7 +2409,8 @@ namespace ceras
 
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    auto const& g_shape = grad.shape();
+                    unsigned long const g_col = std::accumulate( g_shape.begin()+ax, g_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..d4db5ce 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -755,9 +755,8 @@ namespace ceras
             for  ( auto idx : range(n) )
                 std::copy( tsor.begin(), tsor.end(), itor + idx * tsor.size() );
 
-            std::vector<unsigned long>  new_shape;
-            new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long>  new_shape = tsor.shape();
+            new_shape.insert( new_shape.begin(), n );
             ans.reshape( new_shape );
         }
 
@@ -914,19 +913,23 @@ namespace ceras
     template< Tensor Tsor >
     Tsor concatenate( Tsor const& lhs, Tsor const& rhs, unsigned long axis=0 ) noexcept
     {
+        // axis alignment
+        auto const& align = []( Tsor const& tsor, Tsor const& refer ) // prepend the leading dims of 'refer' to 'tsor'
+        {
+            auto const& shape = tsor.shape();
+            auto const& refer_shape = refer.shape();
+            std::vector<unsigned long> new_shape{ refer_shape.begin(), refer_shape.begin()+refer.ndim()-tsor.ndim() };
+            auto ans = repeat( tsor, std::accumulate( new_shape.begin(), new_shape.end(), 1UL, [](auto x, auto y ){ return x*y; } ) );
+            std::copy( shape.begin(), shape.end(), std::back_inserter( new_shape ) );
+            ans.reshape( new_shape );
+            return ans;
+        };
+
         if ( lhs.ndim() < rhs.ndim() )
-            return concatenate( rhs, lhs, axis );
+            return concatenate( align( lhs, rhs ), rhs, axis );
 
-        // axis alignment
         if ( lhs.ndim() > rhs.ndim() )
-        {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
-            auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
-            new_rhs.reshape( new_shape );
-            return concatenate( lhs, new_rhs, axis );
-        }
+            return concatenate( lhs, align( rhs, lhs ), axis );
 
         auto l_shape = lhs.shape();
         auto r_shape = rhs.shape();
-- 
2.43.0


From 89c05d43234522d961c803748d5e75ac527b45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 12/61] fix: adding or subtracting two tensors overwrites the
 left operand

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index d4db5ce..c8a44b3 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // broadcast_tensor shares the data when there is nothing to expand
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // broadcast_tensor shares the data when there is nothing to expand
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From c866972a79e755e8851195006bb4554e04741dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 13/61] fix: elementwise_product repeats a smaller operand
 instead of broadcasting it

---
 include/operation.hpp |  3 ++-
 include/tensor.tcc    | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index f635795..4442f81 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -864,7 +864,8 @@ namespace ceras
                                         };
                                         return std::make_tuple( grad_fun( lhs_input, rhs_input ), grad_fun( rhs_input, lhs_input ) );
                                      },
-                                     "elementwise_product"
+                                     "elementwise_product",
+                                     []( std::vector<unsigned long> const& l, std::vector<unsigned long> const& r ) noexcept { return broadcast_shape( l, r ); }
                 )( lhs_ex, rhs_ex );
     };
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index c8a44b3..e4a3e75 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -718,6 +718,25 @@ namespace ceras
         unsigned long const r_size = rhs.size();
         if ( l_size < r_size ) return elementwise_product(rhs, lhs);
 
+        // repeating the smaller tensor is a broadcast only if its shape is a tail of the other shape, expand it properly otherwise
+        {
+            std::vector<unsigned long> const& l_shape = lhs.shape();
+            std::vector<unsigned long> const& r_shape = rhs.shape();
+            auto const head = std::find_if( r_shape.begin(), r_shape.end(), []( auto x ) noexcept { return x != 1; } );
+            unsigned long const tail = std::distance( head, r_shape.end() );
+            bool const is_tail = (tail <= l_shape.size()) && std::equal( head, r_shape.end(), l_shape.end()-tail );
+            unsigned long const common = std::min( l_shape.size(), r_shape.size() );
+            bool const is_broadcastable = std::equal( l_shape.end()-common, l_shape.end(), r_shape.end()-common, []( auto x, auto y ) noexcept { return (x == y) || (x == 1) || (y == 1); } );
+            if ( is_broadcastable && (!is_tail || (r_shape.size() > l_shape.size())) )
+            {
+                auto const& broadcasted_shape = broadcast_shape( l_shape, r_shape );
+                Tsor ans = broadcast_tensor( lhs, broadcasted_shape ).deep_copy();
+                Tsor const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
+                for_each( ans.begin(), ans.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x *= y; } );
+                return ans;
+            }
+        }
+
         unsigned long const repeats = l_size / r_size;
         better_assert( (r_size * repeats) == l_size, "Dimension is not match!" );
 
-- 
2.43.0


From f317a3d034273cd80d7b3b705e467fbeb75e8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 14/61] fix: minimum sends its gradient to the larger operand

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4442f81..32d57ef 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2543,7 +2543,7 @@ namespace ceras
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
 
-                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m < 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
+                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m > 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
 
                 return std::make_tuple( l_ans, r_ans );
             },
-- 
2.43.0


From 57f394f43a66c828d3ab9ca4f288d07454c61331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 15/61] fix: max of a tensor of negative numbers is the
 smallest positive number

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index e4a3e75..f2d57e8 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1027,7 +1027,7 @@ namespace ceras
         typedef typename Tsor::value_type value_type;
         better_assert( tsor.size() != 0, "tensor::max error: input tensor should not be empty!" );
         if ( tsor.size() == 0 ) return value_type{0};
-        value_type ans = std::numeric_limits<value_type>::min();
+        value_type ans = std::numeric_limits<value_type>::lowest();
         for ( auto idx : range( tsor.size() ) )
             ans = std::max( tsor[idx], ans );
         return ans;
@@ -1209,7 +1209,7 @@ namespace ceras
     template <Tensor Tsor>
     Tsor max( Tsor const& ts, unsigned long axis, bool keepdims=false ) noexcept
     {
-        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::min(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
+        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::lowest(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
     }
 
     template <Tensor Tsor>
-- 
2.43.0


From 5f04120ea4bb92632cf0d3fdc95d549c7004f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 16/61] fix: var() returns the sum of squared deviations, not
 their mean as variance() does

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index f2d57e8..e5bc2bf 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1197,7 +1197,7 @@ namespace ceras
     typename Tsor::value_type var( Tsor const& ts ) noexcept
     {
         auto x = ts - mean(ts);
-        return std::inner_product( x.begin(), x.end(), x.begin(), typename Tsor::value_type{0} );
+        return std::inner_product( x.begin(), x.end(), x.begin(), typename Tsor::value_type{0} ) / static_cast<typename Tsor::value_type>( ts.size() );
     }
 
     template <Tensor Tsor> requires std::floating_point<typename Tsor::value_type>
-- 
2.43.0


From 64c2337a34f8a1d1fe34498db407627ab2a41628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 17/61] fix: multiplying a matrix with a 1D tensor resizes the
 1D tensor to the size of the matrix

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index e5bc2bf..5013df0 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -675,7 +675,7 @@ namespace ceras
             return multiply( reshape( lhs, {1UL, lhs.size()} ), rhs, ans );
 
         if ( 1 == rhs.ndim() )
-            return multiply( lhs, reshape( rhs, {lhs.size(), 1UL} ), ans );
+            return multiply( lhs, reshape( rhs, {rhs.size(), 1UL} ), ans );
 
         better_assert( 2 == rhs.ndim(), "expecting rhs tensor has 2 dimensions, but got ", rhs.ndim() );
 
-- 
2.43.0


From d0c3849df5c0f2bb601d8370249cf6b1748da47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 18/61] fix: reducing a 1D tensor along its axis reshapes to an
 empty shape and reads out of bounds

---
 include/tensor.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 5013df0..45eb974 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1155,6 +1155,7 @@ namespace ceras
         {
             std::copy( _shape.begin()+axis+1, _shape.end(), _shape.begin()+axis );
             _shape.resize( _shape.size() - 1 );
+            if ( _shape.empty() ) _shape.push_back( 1UL ); // reducing the only axis
             ans.reshape( _shape );
         }
 
-- 
2.43.0


From 7f6637f03fc4e8d419ab9ef178c00683d59f5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 19/61] fix: one functor applied to two expressions makes them
 share their buffers

---
 include/operation.hpp | 120 +++++++++++++++++++-----------------------
 1 file changed, 53 insertions(+), 67 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 32d57ef..3a1d8ee 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -461,11 +461,10 @@ namespace ceras
     ///
     auto inline broadcast( std::vector<unsigned long> const& new_shape ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [new_shape, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [new_shape]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [new_shape, forward_cache]<Tensor Tsor>( Tsor const& input )noexcept
@@ -1327,11 +1326,10 @@ namespace ceras
     ///
     auto inline argmax( unsigned long axis=0 ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1620,11 +1618,10 @@ namespace ceras
             }
         };
 
-        std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
-
-        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward, output_cache, back_grad_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
@@ -1768,9 +1765,6 @@ namespace ceras
         std::string const& padding="valid"
     ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         auto shape_calculator = [=]( std::vector<unsigned long> const& old_shape )
         {
             std::vector<unsigned long> new_shape = old_shape;
@@ -1786,6 +1780,8 @@ namespace ceras
 
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1884,12 +1880,11 @@ namespace ceras
         better_assert( factor < T{1}, "Expecting drop out rate less than 1, but got factor = ", factor );
         better_assert( factor > T{0}, "Expecting drop out rate greater than 0, but got factor = ", factor );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [factor, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [factor]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [factor, mask, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2047,12 +2042,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting max_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 max_pooling_2d_context{}.make_forward()( stride, mask, forward_cache ),
@@ -2072,11 +2066,10 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting average_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [stride, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept // [BS, R, C, CH] --> [BS, R/s, C/s, CH]
@@ -2212,11 +2205,10 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting up_sampling_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 up_sampling_2d_context{}.make_forward()( stride, forward_cache ),
@@ -2243,15 +2235,14 @@ namespace ceras
     template< typename T=double > requires std::floating_point<T>
     inline auto normalization_batch( T const momentum=0.98 ) noexcept
     {
-        std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2845,11 +2836,11 @@ namespace ceras
         better_assert( right >= 1, "Expecting zero_padding_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -2970,11 +2961,11 @@ namespace ceras
         better_assert( right >= 1, "Expecting cropping_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 cropping_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -3087,12 +3078,11 @@ namespace ceras
 
     inline auto sliding_2d( unsigned long pixels ) noexcept
     {
-        std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return cropping_2d( {pixels,} )( detailed_sliding_2d(pixels, shift_cache, forward_cache, backward_cache)( zero_padding_2d( {pixels,} )( ex ) )  );
         };
     }
@@ -3186,11 +3176,10 @@ namespace ceras
     {
         better_assert( repeats > 0, "repeat: repeats can not be zero." );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [repeats, axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [repeats, axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 repeat_context{}.make_forward()( repeats, axis, forward_cache ),
@@ -3318,12 +3307,11 @@ namespace ceras
     ///
     inline auto reduce_min( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_min_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3453,12 +3441,11 @@ namespace ceras
     ///
     inline auto reduce_max( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_max_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3570,11 +3557,10 @@ namespace ceras
     ///
     inline auto reduce_sum( unsigned long axis ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_sum_context{}.make_forward()( axis, forward_cache ),
-- 
2.43.0


From 7605cd49d319d7d2753317b2d0df80da6002f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 20/61] fix: zero_padding_2d leaves elements of a previous run
 in the border

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 3a1d8ee..a0e020c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2755,6 +2755,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        std::fill( ans.begin(), ans.end(), value_type{0} ); // the cached buffer may hold the elements of a previous run
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From 9ff161bab096b4bc615bcd08aeeb306ff0ed148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 21/61] fix: backpropagation through conv2d_transpose does not
 compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index a0e020c..cd2a729 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1822,7 +1822,7 @@ namespace ceras
 
                     std::vector<unsigned long> const& output_shape = grad.shape();
                     auto [_bs, o_row, o_col, _ch] = std::make_tuple( output_shape[0], output_shape[1], output_shape[2], output_shape[3] );
-                    view_4d<value_type> g_4d{ grad.data(), bs, o_row, o_col, ch };
+                    view_4d<value_type const> g_4d{ grad.data(), bs, o_row, o_col, ch };
 
                     unsigned long row_offset = (padding == std::string{"valid"}) ? (row_kernel-1) : 0;
                     unsigned long col_offset = (padding == std::string{"valid"}) ? (col_kernel-1) : 0;
-- 
2.43.0


From 5d8d4f6cc58f2b3ec659193babf6c044068d1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 22/61] fix: img2col orders its rows as [CH, r, c] while
 filters are [r, c, CH]

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index cd2a729..274ccc7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1561,9 +1561,9 @@ namespace ceras
                     std::int64_t const im_offset = bs * R * C * CH;
                     for ( auto c : range( CH * kernel_row * kernel_col ) )
                     {
-                        std::int64_t const w_offset = c % kernel_col;
-                        std::int64_t const h_offset = ( c / kernel_col ) % kernel_row;
-                        std::int64_t const c_im = c / ( kernel_col * kernel_row );
+                        std::int64_t const c_im = c % CH; // the rows are ordered as [r, c, CH], same as the filters
+                        std::int64_t const w_offset = ( c / CH ) % kernel_col;
+                        std::int64_t const h_offset = c / ( CH * kernel_col );
 
                         for ( auto h : range( output_row ) )
                         {
-- 
2.43.0


From 66df90f5849f0617fa862dc8a4bf83dcd04a508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 23/61] fix: img2col reuses the index of an image of another
 shape

---
 include/operation.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 274ccc7..7bab21f 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1526,11 +1526,11 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        auto img2col_forward = []<Tensor Tsor>
         (
             Tsor const& input_img, Tsor& output_col_mat,
+            std::vector<std::uint32_t>& index_record, // 32 bit should be enough for memory address offeset
+            std::vector<unsigned long>& index_shape,  // shape of the image the record has been generated for
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
             unsigned long stride_row, unsigned long stride_col,
@@ -1538,7 +1538,6 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1551,8 +1550,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( index_shape != input_shape ) // first-run?
             {
+                index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1603,13 +1603,12 @@ namespace ceras
             }
         };
 
-        auto img2col_backward = [s_index_record]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
+        auto img2col_backward = []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans, std::vector<std::uint32_t> const& index_record ) noexcept
         {
             typedef typename Tsor::value_type value_type;
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1622,18 +1621,20 @@ namespace ceras
         {
             std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
             std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+            std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( tsor, output, *s_index_record, *s_index_shape, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     Tsor& back_grad = context_cast<Tsor>( back_grad_cache );
-                    img2col_backward( input, output, grad, back_grad );
+                    img2col_backward( input, output, grad, back_grad, *s_index_record );
                     return Tsor{back_grad};
                 },
                 "img2col",
-- 
2.43.0


From 3a40dc356421e591fd07ed4aa0508a91f160b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 24/61] fix: conv2d computes its number of columns from the row
 padding

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 7bab21f..88158a0 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1687,7 +1687,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
@@ -1740,7 +1740,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
-- 
2.43.0


From bddbf85cfd2f7b91b6d419320d67f89439891366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 25/61] fix: conv2d_transpose strides over its up-scaled input
 again

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 88158a0..b3838f3 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1867,7 +1867,7 @@ namespace ceras
         {
             //auto new_lhs_ex = conv2d_tranpose_intermediate( row_kernel, col_kernel, row_stride, col_stride, padding )( lhs_ex );
             auto new_lhs_ex = conv2d_tranpose_intermediate( row_kernel, col_kernel, row_stride, col_stride, padding )( lhs_ex );
-            return general_conv2d( row_stride, col_stride, row_dilation, col_dilation, padding )( new_lhs_ex, flip(1)(flip(2)(rhs_ex)) );
+            return general_conv2d( 1, 1, row_dilation, col_dilation, padding )( new_lhs_ex, flip(1)(flip(2)(rhs_ex)) );
         };
     }
 
-- 
2.43.0


From 6fb8703c96ef2d61f1fefec4ce13e158381b191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 26/61] fix: static shape of reductions along the default axis
 writes before its buffer

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index b3838f3..9619789 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3323,7 +3323,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3457,7 +3457,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3572,7 +3572,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From 959369da1e01c6376ec73778c91e34f668855c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 27/61] fix: max_pooling_2d backpropagates to the maximums of
 previous runs

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 9619789..ccb6c65 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1964,7 +1964,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
-
+                        std::fill( mask__.begin(), mask__.end(), value_type{0} ); // maximums of the last run
 
                         std::vector<unsigned long> shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
@@ -2016,6 +2016,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
-- 
2.43.0


From bf9a3946dad7fccd4e1a61e914dc0a22d33b0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 28/61] fix: average_pooling_2d backward reads out of bounds
 when the input is not a multiple of the stride

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index ccb6c65..86c6db0 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2108,6 +2108,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    std::fill( ans.begin(), ans.end(), value_type{0} );
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2116,8 +2117,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( row/stride*stride ) ) // the remainder does not contribute
+                            for ( auto c : range( col/stride*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From cc52f93461cce152e4581f4473de907649250240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 29/61] fix: relu, relu6, leaky_relu, elu, exponential,
 hard_sigmoid and clip overwrite the gradient they are given

---
 include/activation.hpp | 12 ++++++------
 include/operation.hpp  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index e1ed4c2..0a6da05 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -310,7 +310,7 @@ namespace ceras
                     better_assert( output.size(), "relu::backward: empty output." );
                     better_assert( grad.size(), "relu::backward: empty grad." );
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( x <= value_type{0} ) v = value_type{0}; } );
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){  v *= ( x > value_type{0} ); } );
                     return ans;
@@ -363,7 +363,7 @@ namespace ceras
                 return []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //const typename Tsor::value_type zero{0};
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( (x <= value_type{0}) || (x >= value_type{6}) ) v = value_type{0}; } );
                     return ans;
@@ -421,7 +421,7 @@ namespace ceras
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [factor]( value_type& v_back, value_type const v_in ){ v_back = (v_in > value_type{0}) ? v_back : factor*v_back; } );
                                             return ans;
                                         },
@@ -476,7 +476,7 @@ namespace ceras
                                         [alpha]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : static_cast<value_type>( v_back*alpha*std::exp(v_in) ); } );
                                             return ans;
                                         },
@@ -515,7 +515,7 @@ namespace ceras
                                     },
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
@@ -551,7 +551,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), input.begin(), []( auto& a, auto x ) { a = ((x > value_type{1}) || (x < value_type{-1})) ? value_type{0} : (a / value_type{2}); } );
                                         return ans;
                                     },
diff --git a/include/operation.hpp b/include/operation.hpp
index 86c6db0..bd3c201 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1090,7 +1090,7 @@ namespace ceras
                                         {
                                             better_assert( !has_nan( grad ), "input gradient for operator clip contains NaN!" );
                                             const typename Tsor::value_type zero{0};
-                                            Tsor ans = grad;
+                                            Tsor ans = grad.deep_copy();
                                             for ( auto idx : range( input.size() ) )
                                                 ans[idx] = (input[idx] < lower) ? zero :
                                                            (input[idx] > upper) ? zero :
-- 
2.43.0


From a29cfb00c62e0dd3b8501c9baef9f28674381421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 30/61] fix: normalization_batch keeps its first backward
 buffer when the shape of the input changes and writes out of bounds

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index bd3c201..6b3ae78 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2347,7 +2347,8 @@ namespace ceras
                     unsigned long const channels = *(shape.rbegin());
                     unsigned long const rest_dims = input.size() / channels;
 
-                    Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    Tsor& ans = context_cast<Tsor>( backward_cache );
+                    ans.resize( input.shape() ); // the batch sizes are not necessarily same
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
                     for ( auto r : range( rest_dims ) )
-- 
2.43.0


From 32310dd24aa4512997a6eae2b0915f7c97234e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 31/61] fix: normalization_batch backward treats the average
 and the variance of the batch as constants

---
 include/operation.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6b3ae78..46540b7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2338,7 +2338,7 @@ namespace ceras
                     return ans;
                 },
 
-                [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
+                [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
                     Tsor& variance = context_extract<Tsor>( variance_cache );
@@ -2351,9 +2351,20 @@ namespace ceras
                     ans.resize( input.shape() ); // the batch sizes are not necessarily same
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
-                    for ( auto r : range( rest_dims ) )
-                        for ( auto c : range( channels ) )
-                            ans_[r][c] = grad_[r][c] / std::sqrt( variance[c] + eps );
+                    view_2d<value_type> output_{output.data(), rest_dims, channels };
+                    for ( auto c : range( channels ) )
+                    {
+                        // the average and the variance depend on the input, too
+                        value_type grad_average{0};
+                        value_type projection_average{0};
+                        for ( auto r : range( rest_dims ) )
+                        {
+                            grad_average += grad_[r][c] / static_cast<value_type>( rest_dims );
+                            projection_average += grad_[r][c] * output_[r][c] / static_cast<value_type>( rest_dims );
+                        }
+                        for ( auto r : range( rest_dims ) )
+                            ans_[r][c] = ( grad_[r][c] - grad_average - output_[r][c] * projection_average ) / std::sqrt( variance[c] + eps );
+                    }
                     return ans;
                 },
                 "normalization_batch",
-- 
2.43.0


From 87f6b7758fa55ec5ad9f293086b6d21896441a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 32/61] fix: mean_squared_logarithmic_error is the sum of the
 squared errors, not their mean

---
 include/loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/loss.hpp b/include/loss.hpp
index 804f15e..f20f36b 100644
--- a/include/loss.hpp
+++ b/include/loss.hpp
@@ -11,7 +11,7 @@ namespace ceras
     template < Expression Lhs_Expression, Expression Rhs_Expression >
     auto constexpr mean_squared_logarithmic_error( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex ) noexcept
     {
-        return sum_reduce( square( minus(log( value{1.0} + clip(eps)(lhs_ex) ), log( value{1.0} + clip(eps)(rhs_ex) ))) );
+        return mean_reduce( square( minus(log( value{1.0} + clip(eps)(lhs_ex) ), log( value{1.0} + clip(eps)(rhs_ex) ))) );
     }
 
     template < Expression Lhs_Expression, Expression Rhs_Expression >
-- 
2.43.0


From 212e25adbadaeecbb997747a2a7fa6b5edd78928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 33/61] fix: sgd applies the Nesterov update when asked for
 plain momentum, and plain momentum when asked for Nesterov

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..4500951 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From f591fefa0302aa27df9abb7e27d7c4d916da7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 34/61] fix: adadelta keeps its squared updates in the same
 buffer as its squared gradients

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 4500951..a4b2846 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From b86e7ac669dc5d1ef75456f467382ed32e93c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 35/61] fix: adam and adadelta read past the state another
 optimizer left in a variable, and other optimizers take it for their own

---
 include/optimizer.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index a4b2846..d5447e4 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -54,8 +54,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( iterations_ == 0 || contexts.size() != 1 ) // create context, dropping the one of another optimizer
+                        contexts = std::vector<tensor_type>{ zeros_like( data ) };
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
                     if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
@@ -99,8 +99,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( iterations_ == 0 || contexts.size() != 1 ) // create context, dropping the one of another optimizer
+                        contexts = std::vector<tensor_type>{ zeros_like( data ) };
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                     auto& moments = contexts[0];
 
@@ -150,8 +150,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
-                        contexts.push_back( zeros_like( data ) );
+                    if ( iterations_ == 0 || contexts.size() != 1 ) // create context, dropping the one of another optimizer
+                        contexts = std::vector<tensor_type>{ zeros_like( data ) };
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                     auto& moments = contexts[0];
 
@@ -200,12 +200,11 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
+                    if ( iterations_ == 0 || contexts.size() != 2 ) // create context, dropping the one of another optimizer
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
-                        contexts.push_back( zeros_like( data ) );
+                        contexts = std::vector<tensor_type>{ zeros_like( data ), zeros_like( data ) };
                     }
                     auto& moments = contexts[0];
                     auto& delta = contexts[1];
@@ -275,12 +274,11 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
-                    if ( contexts.empty() ) // create context
+                    if ( iterations_ == 0 || contexts.size() != 2 ) // create context, dropping the one of another optimizer
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-                        contexts.push_back( zeros_like( data ) );
-                        contexts.push_back( zeros_like( data ) );
+                        contexts = std::vector<tensor_type>{ zeros_like( data ), zeros_like( data ) };
                     }
                     auto& m = contexts[0];
                     auto& v = contexts[1];
-- 
2.43.0


From 52db01fc740897175cd71d180e4444a328894b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 36/61] fix: the regularizer of a variable that appears several
 times in an expression is applied several times

---
 include/variable.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..5d6d4d7 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -23,14 +23,6 @@ namespace ceras
     template< Tensor Tsor >
     ceras_private::session<Tsor>& get_default_session();
 
-    template< Tensor Tsor >
-    struct variable_state
-    {
-        Tsor data_;
-        Tsor gradient_;
-        std::vector<Tsor> contexts_;
-    };
-
     template< typename Float > requires std::floating_point<Float>
     struct regularizer
     {
@@ -42,6 +34,15 @@ namespace ceras
         constexpr regularizer( value_type l1=0.0, value_type l2=0.0, bool synchronized=false ) noexcept : l1_{l1}, l2_{l2}, synchronized_{synchronized} {}
     };
 
+    template< Tensor Tsor >
+    struct variable_state
+    {
+        Tsor data_;
+        Tsor gradient_;
+        std::vector<Tsor> contexts_;
+        regularizer<typename Tsor::value_type> regularizer_; // shared, all copies of a variable are regularized once in a backward pass
+    };
+
     template< Tensor Tsor >
     struct variable : enable_id<variable<Tsor>, "Variable">
     {
@@ -49,12 +50,12 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        regularizer<value_type> regularizer_;
         bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, trainable_{trainable}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
+            (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
 
@@ -77,7 +78,7 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularizer_.synchronized_ = false; // mark changes
             }
             return state.data_;
         }
@@ -94,6 +95,7 @@ namespace ceras
             state.gradient_ += grad; // collecting all the gradients from its children nodes, will be called mulitple times in a single backward pass
 
             // apply regularizers
+            auto& regularizer_ = state.regularizer_;
             if (!(regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
             {
                 if ( regularizer_.l1_ >= eps ) // l1 regularizer
@@ -166,22 +168,22 @@ namespace ceras
 
         value_type l1_regularizer() const
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type& l1_regularizer()
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type l2_regularizer() const
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
         value_type& l2_regularizer()
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
     };//struct variable
-- 
2.43.0


From 4dfbb7338613097e81d2a8f3fe353afdf7003431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 37/61] fix: freezing a variable has no effect on the copies of
 it in expressions and in the session, which optimizers update

---
 include/optimizer.hpp | 12 ++++++------
 include/variable.hpp  | 15 ++++++++-------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index d5447e4..17559b6 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -269,7 +269,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -338,7 +338,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 5d6d4d7..c7a4513 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -40,6 +40,7 @@ namespace ceras
         Tsor data_;
         Tsor gradient_;
         std::vector<Tsor> contexts_;
+        bool trainable_ = true; // shared, freezing a variable freezes its copies in expressions and in the session
         regularizer<typename Tsor::value_type> regularizer_; // shared, all copies of a variable are regularized once in a backward pass
     };
 
@@ -50,11 +51,11 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
+            (*((*this).state_)).trainable_ = trainable;
             (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
@@ -85,9 +86,9 @@ namespace ceras
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+            if (!state.trainable_) return;
+
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -161,10 +162,10 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-- 
2.43.0


From 4ac69e022c0e596edb8a623fae2385ec975c9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 38/61] fix: freezing a model and composing models do not
 compile

---
 include/model.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..e8e3ca4 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
@@ -54,13 +54,13 @@ namespace ceras
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            return make_unary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )( replace_placeholder_with_expression( ex.op_, old_place_holder, new_expression ) );
+            return make_unary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator(), ex.serializer() )( replace_placeholder_with_expression( ex.op(), old_place_holder, new_expression ) );
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            return make_binary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )
-                                       ( replace_placeholder_with_expression( ex.lhs_op_, old_place_holder, new_expression ),
-                                         replace_placeholder_with_expression( ex.rhs_op_, old_place_holder, new_expression ) );
+            return make_binary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator(), ex.serializer() )
+                                       ( replace_placeholder_with_expression( ex.lhs_op(), old_place_holder, new_expression ),
+                                         replace_placeholder_with_expression( ex.rhs_op(), old_place_holder, new_expression ) );
         }
         else
         {
-- 
2.43.0


From 90a1e5a12c3cbc5b0fe38fc149573df2ffd61300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 39/61] fix: fit trains on the first batch of the validation
 split

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index e8e3ca4..103ce57 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -206,7 +206,7 @@ namespace ceras
                     // forward pass
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From 836033cd470d137dc12fccfd40997cb3bbc2d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 40/61] fix: drop_out keeps the mask of its first input for
 ever and reads past it when the input grows

---
 include/operation.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 46540b7..e9d5984 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1895,19 +1895,13 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
-                    {
-                        Tsor const random_tensor = random<value_type>( input.shape() );
-                        Tsor mask__{ input.shape() };
-                        for ( auto idx : range( input.size() ) )
-                            if ( random_tensor[ idx ] > factor )
-                                mask__[ idx ] = 1;
-                        mask_ = mask__; // initialize
-                    }
-
-                    Tsor& mask__ = std::any_cast<Tsor&>( mask_ );
+                    // every training pass draws a mask, of the shape of its input
+                    Tsor const random_tensor = random<value_type>( input.shape() );
+                    Tsor mask__{ input.shape() };
+                    for ( auto idx : range( input.size() ) )
+                        if ( random_tensor[ idx ] > factor )
+                            mask__[ idx ] = 1;
+                    *mask = mask__;
 
                     Tsor& ans = context_cast<Tsor>( forward_cache );
                     ans.deep_copy( input );
-- 
2.43.0


From 2f6c728ac0578fda98e6f2264dd4281ee84cec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 41/61] fix: drop_out scales what it keeps but not its gradient

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index e9d5984..9b7d910 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1910,8 +1910,9 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1921,7 +1922,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From 78c8bd2624aae670e49f49ec7cd3a550906ce485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 42/61] fix: normalization_batch never learns its global
 average when the first run is a prediction

---
 include/operation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 9b7d910..52b9dbb 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2260,8 +2260,7 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                     {
                         // fix for the special case when prediction is executed before the training, typically in a GAN
-                        Tsor& global_average_test = context_cast<Tsor>( global_average_cache );
-                        if ( global_average_test.empty() )
+                        if ( !(*global_average_cache).has_value() )
                             return input;
 
                         // normal case. i.e., the global_average_cache and global_variance_cache are not empty
-- 
2.43.0


From b5a0f117de2b0e993776736fd5a6cbadc64b5b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 43/61] fix: operator > of place holders compares with <

---
 include/place_holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 4c8eb06..0c6b4b9 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -118,7 +118,7 @@ namespace ceras
     template< Place_Holder Ph >
     bool operator > ( Ph const& lhs, Ph const& rhs )
     {
-        return lhs.id() < rhs.id();
+        return lhs.id() > rhs.id();
     }
 
     template< Place_Holder Ph >
-- 
2.43.0


From aab8f68f2bf998319a1d23b53bd16a01b4f2f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 44/61] fix: an expression minus a complex expression computes
 their sum

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index b0c959d..10f54fa 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -248,7 +248,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator - ( E const& e, C const& c ) noexcept
     {
-        return c + e;
+        return complex{ e-real(c), negative(imag(c)) };
     }
 
     ///
-- 
2.43.0


From 01dec2f180be86fc1caab0c4a4011a8533cfc5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 45/61] fix: the product of an expression and a complex
 expression swaps its factors

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index 10f54fa..9d8b077 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -266,7 +266,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator * ( E const& e, C const& c ) noexcept
     {
-        return c * e;
+        return complex{ e*real(c), e*imag(c) }; // the product is not commutative
     }
 
 
-- 
2.43.0


From f6594b150ee170f496122179ab4b5d3e9999c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 46/61] fix: parallel runs indices before the first one, or
 twice, when the range does not start at zero

---
 include/utils/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..781b52a 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -62,7 +62,7 @@ namespace ceras
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            job_slice( std::min<Integer_Type>( tasks_per_thread*(total_cores-1) + dim_first, dim_last ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From 2ffff86b03c50e82a0ceb3c490b4f4ecc89dd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 47/61] fix: the memory cache hands out memory that its garbage
 collection has freed

---
 include/utils/cached_allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..3ba86ec 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -104,6 +104,7 @@ namespace ceras
                 std::allocator<std::byte> alloc;
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
+                reserved_memory.clear();
 
                 return true;
             }
-- 
2.43.0


From d47a09298e8553fa112f6dd87e7d08ffacbd6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 48/61] fix: buffered_allocator allocates sizeof(T) times too
 much and frees it with another size

---
 include/utils/buffered_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/buffered_allocator.hpp b/include/utils/buffered_allocator.hpp
index 1ea9200..1faf9f2 100644
--- a/include/utils/buffered_allocator.hpp
+++ b/include/utils/buffered_allocator.hpp
@@ -43,7 +43,7 @@ namespace ceras
             else // default heap allocation
             {
                 std::allocator<T> a;
-                return a.allocate( bytes );
+                return a.allocate( n );
             }
         }
 
-- 
2.43.0


From e6db558f031fb2f90af7e394d8ddfddbf09130b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 49/61] fix: assigning a temporary to a vector leaks its
 elements, and assigning it to itself drops them

---
 include/utils/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4cec322..4f4d88b 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -33,6 +33,10 @@ namespace ceras
 
         constexpr vector& operator = ( vector && other ) noexcept
         {
+            if ( this == &other )
+                return *this;
+
+            clear();
             size_ = other.size_;
             data_ = other.data_;
             other.size_ = 0;
-- 
2.43.0


From 2b31b84eb821cec5de0195569719613b0f65696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 50/61] fix: lzw::decompress reads from an empty string when
 the first code of its input is invalid

---
 include/utils/lzw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index 4bb0607..59a9926 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -536,7 +536,7 @@ namespace lzw
                 break;
             }
 
-            if (k > dictionary.size())
+            if (k > dictionary.size() || (k == dictionary.size() && i == globals::dms)) // no entry, or one that extends nothing
             {
                 better_assert(false, "lzw::invalid compression code with k = ", k, " but dictionary size ", dictionary.size());
                 return -1;
-- 
2.43.0


From bb53ce929f07c3405f4d83803f8f3b7e7f441dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 51/61] fix: saving a session rounds its variables to 6 digits

---
 include/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..9e597ec 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -123,6 +123,7 @@ namespace ceras
         {
             std::ofstream ofs{ file_path };
             better_assert( ofs.good(), "failed to open file ", file_path );
+            ofs.precision( std::numeric_limits<typename tensor_type::value_type>::max_digits10 ); // enough to restore every value exactly
 
             // save id
             for ( auto const& [id, v] : variables_ )
-- 
2.43.0


From 6aec700e58903486c3419ef40ed41126377a936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 52/61] fix: save_tensor rounds the values it writes

8 digits do not identify a float, and 15 do not identify a double: loading
the file gives other values than the saved ones.
---
 include/tensor.tcc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 45eb974..0b7187d 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1315,12 +1315,8 @@ namespace ceras
     {
         std::ofstream ofs{ file_name };
         typedef typename Tsor::value_type value_type;
-        if constexpr (std::is_same_v<value_type, float> )
-            ofs.precision( 8 );
-        else if constexpr (std::is_same_v<value_type, double> )
-            ofs.precision( 15 );
-        else if constexpr (std::is_same_v<value_type, long double> )
-            ofs.precision( 25 );
+        if constexpr (std::is_floating_point_v<value_type> )
+            ofs.precision( std::numeric_limits<value_type>::max_digits10 ); // enough to load every value exactly
 
         write_tensor( ofs, tsor );
         ofs.close();
-- 
2.43.0


From 0d877923696fc7c802c7c2866c796a97319dab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 53/61] fix: parallel: compute the slices in wide unsigned
 offsets, a range close to the limit of a narrow index type lost or repeated
 indices

---
 include/utils/parallel.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 781b52a..a5cc8c6 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -43,26 +43,24 @@ namespace ceras
             }
 
             // case of more jobs than CPU cores
-            auto const& job_slice = [&func]( Integer_Type a, Integer_Type b )
+            auto const& job_slice = [&func, dim_first]( std::uint_least64_t a, std::uint_least64_t b ) // <- offsets to dim_first
             {
-                if ( a >= b ) return;
-                while ( a != b )
-                    func(a++);
+                for ( ; a < b; ++a )
+                    func( static_cast<Integer_Type>( dim_first + a ) );
             };
 
             threads.reserve( total_cores-1 );
-            std::uint_least64_t tasks_per_thread = ( dim_last - dim_first + total_cores - 1 ) / total_cores;
+            std::uint_least64_t const total_tasks = dim_last - dim_first;
+            std::uint_least64_t const tasks_per_thread = ( total_tasks + total_cores - 1 ) / total_cores;
 
             for ( auto index : range( total_cores-1 ) )
             {
-                Integer_Type first = tasks_per_thread * index + dim_first;
-                first = std::min( first, dim_last );
-                Integer_Type last =  first + tasks_per_thread;
-                last = std::min( last, dim_last );
+                std::uint_least64_t const first = std::min( tasks_per_thread * index, total_tasks );
+                std::uint_least64_t const last = std::min( first + tasks_per_thread, total_tasks );
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( std::min<Integer_Type>( tasks_per_thread*(total_cores-1) + dim_first, dim_last ), dim_last );
+            job_slice( std::min( tasks_per_thread*(total_cores-1), total_tasks ), total_tasks );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From dbeb7356ddbb883f99fb8a6564caf53360316440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 54/61] fix: enumerate: keep a reference to an lvalue container
 instead of iterating over a copy of it

---
 include/utils/enumerate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/enumerate.hpp b/include/utils/enumerate.hpp
index 3fb2edb..1b55c6e 100644
--- a/include/utils/enumerate.hpp
+++ b/include/utils/enumerate.hpp
@@ -34,7 +34,7 @@ namespace ceras
     template <typename T, typename = decltype(std::begin(std::declval<T>())), typename = decltype(std::end(std::declval<T>()))>
     constexpr auto enumerate(T && iterable)
     {
-        return iterable_wrapper{ std::forward<T>(iterable) };
+        return iterable_wrapper<T>{ std::forward<T>(iterable) };
     }
 
 }//namespace ceras
-- 
2.43.0


From 3038d337be65505f5067354484bb83508de8dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 55/61] fix: tqdm: no uninitialised terminal width without a
 terminal and no negative bar on a narrow one, fit() and evaluate() hung
 forever

---
 include/utils/tqdm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..d19492a 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -44,7 +44,8 @@ namespace dm_details
         else
         {
             winsize w;
-            ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
+            if ( ioctl(0, 0x5413, &w) != 0 ) // 0x5413 is translated from macro 'TIOCGWINSZ'; it fails if stdin is not a terminal
+                return 80;
             return w.ws_col;
         }
     }
@@ -194,7 +195,7 @@ namespace tq
         std::ostream* os_{&std::cerr};
 
         //index bar_size_{100};
-        index bar_size_{ dm_details::get_terminal_width()-40 };
+        index bar_size_{ std::max( 0, dm_details::get_terminal_width()-40 ) };
         //index bar_size_{ dm_details::get_terminal_width() };
         index term_cols_{1};
 
-- 
2.43.0


From 1d2b597b2b24120e166d5102c3fcf4bf5c742c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 56/61] fix: cropping_2d: reject a cropping that removes the
 whole image, the unsigned difference wrapped and pixels far outside the image
 were read

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 52b9dbb..894fc88 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2884,8 +2884,8 @@ namespace ceras
                         Tsor input_ = input;
                         view_4d<value_type> ts{ input_.data(), batch_size, row, col, channel };
 
-                        better_assert( row-top-bottom > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
-                        better_assert( col-left-right > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
+                        better_assert( row > top+bottom, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
+                        better_assert( col > left+right, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
 
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
-- 
2.43.0


From 3373fde03ca295f23c7d780e3eb9d0c8775840ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 57/61] fix: concatenate: reject an axis equal to the number of
 dimensions, the static shape was read past its end

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 894fc88..c93b16a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2441,7 +2441,8 @@ namespace ceras
                     better_assert( l.size() == r.size(), fmt::format( "expecting of same size, but lhs.size is {} and rhs.size is {}.", l.size(), r.size() ) );
                     // more assertion ?
                     std::vector<unsigned long> ans = l;
-                    auto new_axe = (axe > ans.size()) ? (ans.size() - 1) : axe;
+                    auto new_axe = (axe == (unsigned long)(-1)) ? (ans.size() - 1) : axe;
+                    better_assert( new_axe < ans.size(), fmt::format( "axis {} is too large for concatenating tensors with {} dimensions.", new_axe, ans.size() ) );
                     ans[new_axe] += r[new_axe];
                     return ans;
                 },
-- 
2.43.0


From 6f166e8e9fcfb608eb1afd76674c425ab3aef5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 58/61] fix: img2col: reject a kernel larger than the padded
 image, the number of output rows and columns wrapped

---
 include/operation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index c93b16a..a5d855f 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1542,6 +1542,8 @@ namespace ceras
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
             auto const [BS, R, C, CH] = std::make_tuple( input_shape[0], input_shape[1], input_shape[2], input_shape[3] );
+            better_assert( R + 2 * padding_row > dilation_row * (kernel_row - 1), "img2col: the kernel is larger than the image, with kernel rows ", kernel_row, " and image rows ", R );
+            better_assert( C + 2 * padding_col > dilation_col * (kernel_col - 1), "img2col: the kernel is larger than the image, with kernel cols ", kernel_col, " and image cols ", C );
 
             unsigned long const output_row = ( R + 2 * padding_row - ( dilation_row * (kernel_row - 1) + 1 ) ) / stride_row + 1;
             unsigned long const output_col = ( C + 2 * padding_col - ( dilation_col * (kernel_col - 1) + 1 ) ) / stride_col + 1;
-- 
2.43.0


From 99094c4f0f29e0875f6712599b45f71848471193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 59/61] fix: fit and evaluate: reject a batch size of zero
 (division by zero) and fewer or more labels than samples (read past the end)

---
 include/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/model.hpp b/include/model.hpp
index 103ce57..e887cac 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -94,6 +94,8 @@ namespace ceras
         template< Tensor Tsor >
         auto evaluate( Tsor const& inputs, Tsor const& outputs, unsigned long batch_size=32 )
         {
+            better_assert( batch_size > 0, "batch_size must be positive." );
+            better_assert( *(inputs.shape().begin()) == *(outputs.shape().begin()), "expecting as many outputs as inputs, but got ", *(inputs.shape().begin()), " inputs and ", *(outputs.shape().begin()), " outputs." );
             // extract size of samples
             unsigned long const samples = *(inputs.shape().begin());
             unsigned long const loops = samples / batch_size;
@@ -163,6 +165,8 @@ namespace ceras
         template< Tensor Tsor >
         auto fit( Tsor const& inputs, Tsor const& outputs, unsigned long batch_size, unsigned long epoch=1, int verbose=0, double validation_split=0.0 )
         {
+            better_assert( batch_size > 0, "batch_size must be positive." );
+            better_assert( *(inputs.shape().begin()) == *(outputs.shape().begin()), "expecting as many outputs as inputs, but got ", *(inputs.shape().begin()), " inputs and ", *(outputs.shape().begin()), " outputs." );
             // extract size of samples
             unsigned long const samples = *(inputs.shape().begin());
             unsigned long const loops_per_epoch = samples / batch_size;
-- 
2.43.0


From 465bd861aa5432b66f4888e526244f1bf85f80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 60/61] fix: dataset: reject truncated image and label files
 and labels above nine instead of copying past the end of the tensors

---
 include/dataset.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dataset.hpp b/include/dataset.hpp
index 07f1abc..6345f9e 100644
--- a/include/dataset.hpp
+++ b/include/dataset.hpp
@@ -44,6 +44,7 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                better_assert( image_data.size() >= offset && ( image_data.size() - offset ) % ( 28*28 ) == 0, "The image file is damaged, it has ", image_data.size(), " bytes." );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -53,11 +54,15 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                better_assert( label_data.size() >= offset, "The label file is damaged, it has ", label_data.size(), " bytes." );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
                 for ( auto idx : range( samples ) )
+                {
+                    better_assert( label_data[idx+offset] < 10, "The label file is damaged, labels must be less than 10." );
                     ans_2d[idx][label_data[idx+offset]] = 1;
+                }
                 return ans;
             };
 
@@ -115,6 +120,7 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                better_assert( image_data.size() >= offset && ( image_data.size() - offset ) % ( 28*28 ) == 0, "The image file is damaged, it has ", image_data.size(), " bytes." );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -124,11 +130,15 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                better_assert( label_data.size() >= offset, "The label file is damaged, it has ", label_data.size(), " bytes." );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
                 for ( auto idx : range( samples ) )
+                {
+                    better_assert( label_data[idx+offset] < 10, "The label file is damaged, labels must be less than 10." );
                     ans_2d[idx][label_data[idx+offset]] = 1;
+                }
                 return ans;
             };
 
-- 
2.43.0


From 0eb29abc521813a41db89b8ae4854b4324015f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 61/61] fix: stride_iterator: order iterators with a negative
 step along their own direction

---
 include/utils/stride_iterator.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/utils/stride_iterator.hpp b/include/utils/stride_iterator.hpp
index 5e30c9a..90fdb8d 100644
--- a/include/utils/stride_iterator.hpp
+++ b/include/utils/stride_iterator.hpp
@@ -92,7 +92,14 @@ namespace ceras
             return *iterator_;
         }
 
-        auto operator<=>(const self_type&) const = default;
+        bool operator==(const self_type&) const = default;
+
+        auto operator<=>(const self_type& other) const
+        {
+            // a negative step walks towards lower addresses
+            auto const order = ( step_ < 0 ) ? ( other.iterator_ <=> iterator_ ) : ( iterator_ <=> other.iterator_ );
+            return ( order != 0 ) ? order : ( step_ <=> other.step_ );
+        }
 
         friend difference_type operator-( const self_type& lhs, const self_type& rhs ) noexcept
         {
-- 
2.43.0

